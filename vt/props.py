"""The properties: single source of properties.jsonl and MANIFEST.json (tools/emit.py)."""


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level="exploration"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, technique=technique, note=note, observe=observe, level=level)


SAN = "runs under AddressSanitizer, LeakSanitizer and UBSan"
RP = "random C programs -> real compiler -> real generator -> real library, " + SAN
PROPS = [
P("R01", "Reflection data describes exactly what the compiler laid out",
  "For every valid C program, the generated reflection data of every type, variable and function has the "
  "names, kinds, sizes, member offsets, bit-field positions and widths, element counts, enumerators with "
  "their values, qualifiers, typedef chains and parameter lists that the compiler itself uses. The generator "
  "produces compilable output for each such program, with either compiler, any supported debug-info version and any optimisation level.",
  ["programs", "configurations"], "all C type declarations x gcc/clang x DWARF 3, 4, 5 x -O levels",
  "tests reflect a few fixed structs with one compiler; the space of declarations (nesting, packing, bit-field "
  "straddling, anonymous members, multi-dimensional arrays, negative enumerators) is unbounded",
  ["pkg/dwarfy/dwarf.go", "pkg/metadb/metadb_builder.go", "modules/metac-reflect-gen/templates/", "src/entry.c"],
  [("ELF/DWARF to database", "pkg/dwarfy, pkg/metadb"), ("templates of the reflect module", "modules/metac-reflect-gen"),
   ("entry accessors", "src/entry.c")],
  "random-program differential monitor: compiler-made layout tables vs reflection",
  RP + "; tables made by sizeof/offsetof/stores in the same compiler are the oracle; exploration of random declarations"),
P("V01", "Numbers and pointers are read, written and compared bit-exactly",
  "Through a value handle every integer, character, boolean, floating, complex and pointer object is read and "
  "written exactly, wherever it lives (variable, member, array element, packed or anonymous member), without "
  "touching any other byte, and comparison and copying of two such values agree with their contents. An access "
  "with a wrong type, and a write to a constant number, is refused and changes nothing.",
  ["inputs", "programs"], "all base and pointer types x positions x contents x requested accessor types",
  "tests read a handful of constants at aligned positions; wrong-type access, neighbours and packed positions are not sampled",
  ["src/value.c", "src/value_base_type.c", "include/metac/reflect/value.h"],
  [("base type accessors", "src/value_base_type.c"), ("typed read/write", "src/value.c")],
  "shadow-memory monitor over random objects", RP + "; whole object compared with a shadow copy after every access"),
P("V02", "Bit-fields are read and written exactly, neighbours untouched",
  "Every bit-field, of any type, sign, width and position (packed and storage-unit crossing ones included), is "
  "read as the value the compiler stored and written so that the compiler reads the new value back. No other "
  "bit of the object changes.",
  ["inputs", "programs"], "all bit-field declarations x stored values",
  "tests use a few widths at few positions", ["src/value.c", "src/entry.c"],
  [("bit-field read/write", "src/value.c"), ("bit-field offsets", "src/entry.c")],
  "differential monitor against compiler-made getters/setters", RP),
P("V03", "Enumerations keep their value, sign and names",
  "Reading an enumeration gives the value the program stored, with its sign, for every size, sign and position "
  "(array elements, members and bit-fields); writing one stores it exactly and changes nothing else. Value to "
  "name lookup gives a declared name of that value, and prints the number if there is none.",
  ["inputs", "programs"], "all enumeration declarations x stored values",
  "tests use small non-negative int-sized enumerations", ["src/value.c", "src/entry.c"],
  [("enumeration read/write", "src/value.c"), ("enumerator lookup", "src/entry.c")],
  "differential monitor against the compiler", RP),
P("V04", "Navigation reaches exactly the right sub-object and refuses bad indices",
  "From a value handle, members by index or name, elements of arrays and targets of pointers are found at the "
  "address and with the type the compiler uses, counts are exact, and an index or name that does not exist is "
  "refused. Overriding an element count gives a view of exactly that many elements.",
  ["inputs", "programs"], "all types x all member ids, names and element indices including those out of range",
  "tests navigate a few fixed objects and rarely out of range", ["src/value.c", "src/entry.c"],
  [("member and element handles", "src/value.c"), ("name lookup", "src/entry.c")],
  "address monitor over random objects", RP),
P("V05", "Printed declarations denote the same type",
  "The C declaration text produced for any reflected type, variable or function, completed with a declarator "
  "name where it asks for one, compiles and denotes exactly the original type, qualifiers included.",
  ["programs"], "all C types: pointers, arrays, function pointers, qualifiers, typedefs in any nesting",
  "tests compare some fixed strings", ["src/entry_cdecl.c"], [("declaration printer", "src/entry_cdecl.c")],
  "recompile-and-compare oracle (__builtin_types_compatible_p, redeclaration)", RP),
P("D01", "A deep copy is an independent, structure-preserving replica",
  "Copying any object graph yields, for every reachable part, equal contents in freshly allocated memory of "
  "sufficient size; in structure-preserving mode shared blocks stay shared, pointers into the middle of a block "
  "keep their offset and cycles stay cycles, in tree mode every pointer gets its own copy and cycles stay closed. "
  "NULL stays NULL whatever the destination held before, the source is never modified and nothing else is allocated.",
  ["programs", "inputs"], "all types x all heap graphs (trees, DAGs, interior pointers, cycles) x handling modes",
  "tests copy a few small hand-made lists and trees", ["src/value_deep.c", "src/value.c"],
  [("memory map", "src/value_deep.c metac_new_value_memory_map_ex"), ("copy", "src/value_deep.c metac_value_copy_ex")],
  "graph-isomorphism monitor with logged allocator", RP),
P("D02", "Deep equality holds exactly for structurally equal values",
  "An object graph compares equal to itself and to its deep copy, in both directions and in every handling mode, "
  "and compares different as soon as any single number, enumeration, bit-field, compared union byte, or pointer "
  "nullness differs anywhere in it. Comparison never modifies or leaks anything.",
  ["programs", "inputs"], "all graphs x single differences at any depth",
  "tests compare a few pairs", ["src/value_deep.c", "src/value.c"],
  [("comparison", "src/value_deep.c metac_value_equal_ex")],
  "single-difference injection monitor", RP),
P("D03", "Deep free releases every reachable block exactly once",
  "Deep-freeing an object graph calls the release function exactly once for every separately allocated block "
  "reachable from it, whatever the sharing, interior pointers and cycles, and never for an address that was not "
  "allocated; the object itself is not released.",
  ["programs", "inputs"], "all heap graphs x handling modes", "tests free small lists and trees",
  ["src/value_deep.c"], [("free", "src/value_deep.c metac_value_free_ex")],
  "logged release function checked against the block list", RP),
P("D04", "A copy that runs out of memory fails cleanly",
  "If any allocation made through the allocator given to a deep copy fails, the copy reports failure, every "
  "block it had obtained is released exactly once through the given release function, and the source is unchanged.",
  ["fault_sequences", "programs"], "every allocation index of copies of random graphs, both block modes",
  "no test makes an allocation fail", ["src/value_deep.c"],
  [("copy failure paths", "src/value_deep.c metac_value_copy_ex")],
  "allocation fault injection with logged allocator", RP + "; the failing allocation is chosen per run", level="fault_enumeration"),
P("D05", "Unsupported parts are refused or handled exactly as the mode says",
  "Unions without a selector, arrays of unknown length and pointers of unknown type make deep copy, comparison and "
  "free fail without side effects in the failing mode, and are otherwise treated exactly as the chosen mode says: "
  "ignored (zero or NULL in the copy), taken by value, copied as raw memory, or copied as a one-byte block.",
  ["configurations", "programs"], "all mode combinations x graphs with such parts",
  "tests use two or three mode combinations", ["src/value_deep.c"],
  [("mode handling", "src/value_deep.c")], "mode-matrix monitor", RP),
P("H01", "The hash map behaves as a map under every history",
  "Whatever sequence of puts, gets, removals, lookups and iterations is applied, and whatever the hash values are "
  "(collisions, negatives), the map answers as an ideal map with the given equality; iteration visits every live "
  "pair exactly once and stops when told to. Running out of memory leaves it consistent.",
  ["histories", "fault_sequences"], "operation histories x hash functions x allocation failures",
  "the test does a few puts and gets", ["src/hashmap.c", "include/metac/backend/hashmap.h"],
  [("open hashing with chains", "src/hashmap.c")], "model-based history monitor with OOM injection", SAN),
P("I01", "The recursive iterator delivers every task once and bottom-up",
  "For every task tree built while iterating, each task is delivered, resumed in the state it was left in once all "
  "its sub-tasks are finished, and its results, failures and contexts are returned to its parent exactly once, in order.",
  ["histories"], "task trees x states x failures x repeated sub-task rounds",
  "the test walks one fixed tree", ["src/iterator.c", "include/metac/backend/iterator.h"],
  [("task stack", "src/iterator.c")], "trace checker against a model scheduler", SAN),
P("S01", "The text of a value is a C initializer of that value",
  "The text produced for any value without following pointers is a valid C initializer: compiled for a variable of "
  "the same type it gives back every number, character, enumeration, bit-field, array element and member, and every "
  "pointer as its address. Producing it neither modifies nor leaks anything.",
  ["programs", "inputs"], "all types x all contents, extremes of every number type included",
  "tests compare fixed strings", ["src/value_string.c", "src/value.c", "src/value_base_type.c"],
  [("value printer", "src/value_string.c metac_value_string_ex")],
  "recompile-and-compare oracle over rendered values", RP),
P("S02", "The deep text of a value rebuilds its object graph",
  "The text produced following pointers, compiled as an initializer, gives an object graph that agrees with the "
  "original in every reachable part; a graph with a cycle, which no text can express, is refused cleanly.",
  ["programs", "inputs"], "all heap graphs without cycles; cyclic graphs are refused",
  "tests compare fixed strings", ["src/value_string.c", "src/value_deep.c"],
  [("value printer", "src/value_string.c metac_value_string_ex")],
  "recompile-and-compare oracle over rendered object graphs", RP),
P("T01", "Tag handlers make counted, selected and cast data behave as declared",
  "With the standard tag handlers attached (array counted by a sibling, zero-ended string, union selected by a "
  "sibling, pointer cast by a sibling, container-of), deep copy, comparison, free and text cover exactly the data "
  "the tags describe: all and only the counted elements, the selected member, the cast target and the container. "
  "A selector value nobody described is refused, and running out of memory leaks nothing.",
  ["programs", "inputs", "fault_sequences"], "tagged structures x counts x selectors x contents x allocation failures",
  "tests use one structure per handler", ["src/entry_tag.c", "src/value_deep.c", "src/value_string.c", "include/metac/reflect/value.h"],
  [("handlers", "src/entry_tag.c metac_handle_*"), ("events", "src/value_deep.c")],
  "generated comparison code over tagged object graphs with logged allocator", RP),
P("T02", "Tag maps answer with the first matching tag and own what they store",
  "For every history of assignments over maps with any number of categories, masks, external maps and default "
  "tags, a lookup returns the tag of the first category that accepts the entry's kind and knows the entry (or its "
  "final type where asked), an external map that has none does not end the search, and otherwise the default. "
  "Tags are not replaced unless asked, invalid requests are refused, and every stored context is released exactly once.",
  ["histories", "configurations", "fault_sequences"], "assignment histories x map shapes x allocation failures",
  "tests fill one or two maps", ["src/entry_tag.c", "src/hashmap.c"],
  [("tag map", "src/entry_tag.c metac_tag_map_tag, metac_tag_map_set_tag")],
  "model-based history monitor with ownership counters and OOM injection", RP),
P("T03", "Tag strings give back exactly the value of the asked key",
  "Looking up a key in a tag string of key:\"value\" pairs returns the value of the first pair with exactly that "
  "key, as written, and nothing for any other key - prefixes, longer keys and keys that only occur inside of values "
  "included; words between the pairs that are no pairs change nothing. Any other text is handled without reading outside of it.",
  ["inputs"], "all tag strings and keys", "tests use a handful of strings", ["src/entry_tag.c"],
  [("tag string parser", "src/entry_tag.c metac_entry_tag_string_lookup")],
  "pair-list oracle over generated and hostile strings under ASan", SAN),
P("F01", "A captured call holds exactly the arguments that were passed",
  "Whatever function is described, with whatever parameters, the value made of the arguments of a call (directly, through a "
  "va_list or a function pointer) holds one parameter per declared parameter, in order, with the declared name and "
  "type and exactly the value that was passed, its text is that of the call, and a captured va_list can still be used by the "
  "call. Copies of the arguments are complete and independent, and nothing leaks.",
  ["programs", "inputs"], "all signatures (numbers, enumerations, pointers, arrays, structures by value) x all arguments",
  "tests call a handful of fixed signatures", ["src/value_with_args.c", "include/metac/reflect/value.h", "modules/metac-reflect-gen/templates/_struct_type.tpl"],
  [("capture", "src/value_with_args.c metac_value_parameter_vwrap"), ("by-value structures", "modules/metac-reflect-gen/templates/_struct_type.tpl")],
  "differential oracle: generated calls with known arguments", RP),
P("F02", "Variadic printf-like arguments are captured as the format says",
  "For every format of supported specifiers and every matching list of arguments, a captured printf-like call "
  "holds one parameter per consumed argument, of the right type and value, strings limited by their precision, "
  "and its text shows them; the captured va_list can still be used by the call; formats that are not supported are refused; nothing outside of the arguments is read, nothing leaks, "
  "also when memory runs out.",
  ["inputs", "fault_sequences"], "all formats x arguments x allocation failures",
  "the test uses two fixed calls", ["src/printf_format.c", "src/value_with_args.c", "src/entry_tag.c"],
  [("printf handler", "src/printf_format.c metac_store_vprintf_params")],
  "differential oracle: generated calls with known arguments", RP),
P("F03", "The format parser agrees with the C grammar of conversion specifications",
  "For every format string, parsing one specification consumes exactly its text and reports its flags, width, precision, "
  "length modifier and conversion as written; anything that is no valid specification is refused, and no byte behind "
  "the end of the string is read.",
  ["inputs"], "all format strings", "the test parses a few formats", ["src/printf_format.c"],
  [("parser", "src/printf_format.c metac_parse_format_specifier")],
  "grammar oracle over generated and hostile strings under ASan", SAN),
P("F04", "Deep operations treat a captured call like any other value",
  "For a captured call whose arguments lead to any heap graph (pointers, counted arrays, strings, structures, shared "
  "blocks, variadic parts), a deep copy into an empty call is complete and independent, comparison is true for "
  "the same call and false after any change of an argument or of what it leads to, and freeing releases exactly the copied blocks. "
  "A copy that runs out of memory leaves nothing behind.",
  ["programs", "inputs", "fault_sequences"], "all signatures x heap graphs x memory modes x failing allocations",
  "the test copies one array", ["src/value_deep.c", "src/value_with_args.c", "src/entry_tag.c"],
  [("calls in the memory map", "src/value_deep.c metac_value_copy_ex"), ("storage copy", "src/value_with_args.c metac_parameter_storage_copy")],
  "generated comparison code over captured object graphs with logged allocator", RP),
P("R02", "Locations, symbol links and the name database lead to the right entry",
  "For every program, looking up a variable or function through a declaration location, a symbol link or the name "
  "database of the generated code gives the entry of exactly that declaration - in nested blocks, with shadowed "
  "names, several declarations on a line or over several lines, statics, headers and equal file or symbol names in "
  "other directories, units or modules - and a name that is not declared there gives nothing.",
  ["programs", "inputs"], "all placements of declarations in sources of compilers and DWARF versions",
  "tests use a few fixed locations", ["pkg/dwarfy/dwarf.go", "modules/metac-reflect-gen/templates/_entry_db.tpl", "modules/metac-reflect-gen/templates/_db_v0.tpl", "src/entry_db.c", "include/metac/reflect/loc.h", "include/metac/reflect/db.h"],
  [("lookup", "include/metac/reflect/loc.h METAC_ENTRY_FROM_DECLLOC, src/entry_db.c"), ("name database", "modules/metac-reflect-gen/templates/_db_v0.tpl")],
  "every declaration has a type of its own size; looked-up entry compared with it", RP),
P("R03", "Types of several units and scopes are never mixed up",
  "When a program has several translation units, or scopes that declare types of the same name, every variable, function, "
  "member and pointer leads to the type its own unit declares: different types of one name stay different, declarations "
  "without a body lead to the definition where it is unique, and merging equal types changes nothing of what is described.",
  ["programs", "configurations"], "all programs of several units with equal, different and incomplete types of the same names",
  "tests have one unit, or units that agree on their types", ["pkg/metadb/metadb_builder.go", "modules/metac-reflect-gen/templates/"],
  [("deduplication", "pkg/metadb/metadb_builder.go deduplicateTypes")],
  "compiler-made layout tables per unit vs reflection of the linked program", RP),
P("R04", "Reflection code depends on the debug data only",
  "The generator gives byte for byte the same reflection code for the same debug data: in every run, and also "
  "when the data is passed on as YAML or JSON file or as unstructured value, which lose nothing of it - 64-bit values, "
  "empty names and the order of entries included.",
  ["programs", "runs"], "all debug data x repeated runs x representations",
  "tests generate once, through ELF only; the order of Go maps differs from run to run", ["pkg/dwarfy/dwarf.go", "pkg/metadb/metadb_builder.go", "modules/metac-reflect-gen/templates/"],
  [("representations", "pkg/dwarfy"), ("order of output", "pkg/metadb/metadb_builder.go")],
  "byte comparison of repeated runs and round trips", "random C programs -> real compiler -> real generator, run again and through every representation"),
P("R05", "The debug data the generator works on is that of the file",
  "Every entry of the debug information of an ELF file is taken over once, with its kind, parent, children in order and all "
  "attributes, and with the attribute values written in the file; nothing is added.",
  ["programs", "configurations"], "all debug information of gcc and clang, DWARF 3 to 5",
  "tests compare one recorded file", ["pkg/dwarfy/dwarf.go"], [("ELF to entries", "pkg/dwarfy/dwarf.go")],
  "differential oracle: an independent DWARF reader (binutils)", "random C programs -> real compiler -> real generator's dump vs readelf"),
P("R06", "The generated test runner runs every declared test exactly once",
  "For every set of test sources, the generated runner builds and runs each test declared with METAC_START_TEST exactly once and "
  "nothing else, whatever the tests are called, however many units declare or mention them, and exits with success if and only "
  "if none of them failed or crashed.",
  ["programs"], "all test sources: names, units, outcomes of tests",
  "the repository's tests are run by it, so a test it forgets is not missed by anyone", ["modules/metac-test-gen/", "include/metac/test.h", "include/metac/reqresp.h"],
  [("collecting requests", "modules/metac-test-gen/templates/_build_requests.tpl"), ("runner", "modules/metac-test-gen/templates/_.tpl")],
  "tests that log themselves vs what was declared", "random test sources -> real compiler -> real generator -> libcheck"),
P("G01", "Settings overrides merge as documented and touch nothing else",
  "The settings of a run are those of the module overridden by every given text in order: tables are merged recursively, anything "
  "else (lists included) is replaced, empty texts change nothing, whether given as YAML or JSON, directly or in a file. An "
  "invalid text is refused, and the settings merged into are left as they were.",
  ["inputs"], "all settings x chains of overriding texts", "the test merges four fixed texts and cannot run without its test library",
  ["pkg/override/override.go"], [("merge", "pkg/override/override.go MergeAll")],
  "model-based oracle over random settings", "harness over the real Go package"),
P("G02", "Modules are found in order and run with their includes, or refused",
  "A module is taken from the first search path that has a loadable one of that name, or from the spec file given; it runs with its own "
  "templates and those of its includes, the settings of that run only, in the asked working directory, and leaves the working directory as it was. "
  "Illegal names, unknown kinds, missing includes and failing templates are reported as errors, by the exit status of the program too.",
  ["inputs", "configurations"], "all directory trees of modules x requests x repeated runs",
  "tests look up one module", ["pkg/module/module.go", "pkg/module/gotemplate/gotemplate.go", "cmd/run/run.go", "main.go"],
  [("lookup", "pkg/module/module.go"), ("includes and run", "pkg/module/gotemplate/gotemplate.go"), ("command line", "cmd/run/run.go, main.go")],
  "model-based oracle over random module trees", "harness over the real Go packages and the real program"),
P("E01", "Entries know where they are declared, and paths lead to the right member",
  "Every type lists as parents exactly the compile units (for types of functions: the blocks) that declare or use it, every "
  "variable, function, member and parameter exactly the unit, block, structure or function it belongs to, and a path of "
  "names or positions leads to the same member or parameter as the single steps, wrong ones to nothing. Copied entries describe the "
  "same as the original, counted arrays have the requested count, and deleting an entry frees copies only.",
  ["programs", "inputs"], "all programs of several units x entries x paths",
  "the tests look at one parent of a few entries; merged types and invalid paths are not tested",
  ["src/entry.c", "pkg/metadb/metadb_builder.go", "modules/metac-reflect-gen/templates/_parents.tpl", "include/metac/reflect/entry.h"],
  [("parents", "src/entry.c metac_entry_parent_entry, pkg/metadb/metadb_builder.go deduplicateTypes"), ("paths", "src/entry.c metac_entry_by_member_ids, metac_entry_by_parameter_ids"), ("copies", "src/entry.c metac_new_entry, metac_new_element_count_entry")],
  "the program generator knows which unit, block or type declares what; compared with the reflected entries under ASan", RP),
P("A01", "Every accessor serves its kind and refuses all others",
  "For every entry and value - of any kind of type, variable, member, parameter or function - and for NULL, exactly the "
  "predicates of its kind hold, and every operation of another kind or type, with ids out of range or without output, is "
  "refused with its documented error value without a crash and without touching the object or the output.",
  ["inputs"], "all public entry and value accessors x kinds of entries and values x pairs of types x NULL",
  "the tests call accessors on values of their own kind",
  ["src/entry.c", "src/value.c", "src/value_base_type.c", "include/metac/reflect/entry.h", "include/metac/reflect/value.h"],
  [("entries", "src/entry.c _entry_with_*_info"), ("values", "src/value.c _value_with_*_info, metac_value_base_type"), ("base types", "src/value_base_type.c")],
  "kind of each entry from compiler-made tables; every accessor called on every entry under ASan/UBSan, objects compared with shadow copies", RP),
P("M01", "An inherited structure is one object seen with and without prefix",
  "For every hierarchy of structures built with METAC_STRUCT_CREATE and METAC_STRUCT_INHERIT0..6, with any fields and one or "
  "several parents in any place, the program compiles, every inherited field is the same object - same address, same size - "
  "under each mixture of parent prefixes, the parent part is a complete parent structure, and the reflection finds the "
  "field exactly where the program does.",
  ["inputs"], "hierarchies of 2 to 8 levels x fields x position and number of parents x compilers and debug formats",
  "the test has one small hierarchy",
  ["include/metac/inherit.h", "src/value.c"],
  [("macros", "include/metac/inherit.h METAC_STRUCT_INHERIT*"), ("members", "src/value.c metac_new_value_by_member_id")],
  "generated hierarchies compiled and run under ASan/UBSan; addresses of every path to a field compared with each other and with the reflection", RP),
P("P01", "Threads with results of their own never disturb each other",
  "While several threads use the library at once on objects, entries, tag maps and hash maps that none of them changes - walking, "
  "printing, comparing, copying, freeing their own copies, capturing calls, building their own maps and iterators - there is "
  "no data race, and every operation gives exactly what it gives when it runs alone.",
  ["inputs", "schedules"], "8 threads x random operations in random order x random types, object graphs, calls and containers",
  "all tests have one thread",
  ["src/value.c", "src/value_deep.c", "src/value_string.c", "src/value_with_args.c", "src/entry_cdecl.c", "src/entry_tag.c", "src/hashmap.c", "src/iterator.c", "src/printf_format.c"],
  [("deep operations", "src/value_deep.c"), ("text", "src/value_string.c, src/value_base_type.c, src/entry_cdecl.c"), ("calls", "src/value_with_args.c, src/printf_format.c")],
  "ThreadSanitizer build of the library and the programs; each concurrent result compared with the result of the same operation alone", "random C programs -> real generator -> library and programs built with ThreadSanitizer"),
P("M02", "Lists and text helpers are exact under every history and length",
  "Under every history of insertions (head, before, after) and removals a list of backend/list.h holds exactly the inserted elements "
  "in the right order with correct back links, leaves lists over other links of the elements alone, and the text helpers of "
  "backend/string.h give the complete formatted text whatever its length and trim exactly the trailing spaces.",
  ["histories", "inputs"], "histories of list operations x texts of all lengths x buffer sizes",
  "no test uses these headers directly",
  ["include/metac/backend/list.h", "include/metac/backend/string.h"],
  [("lists", "include/metac/backend/list.h"), ("text", "include/metac/backend/string.h dsprintf_render_with_buf, trim_trailing_spaces")],
  "model of the lists compared after every operation; texts compared with sprintf; under ASan/UBSan", SAN),
]
NOT_APPLICABLE = []
