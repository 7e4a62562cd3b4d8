from . import c_layout, c_values, c_backend, c_cdecl, c_deep, c_string, c_tags, c_args, c_lookup, c_units, c_repro, c_modules, c_testgen, c_entries, c_kinds, c_inherit, c_threads
REG = {
    "M02": c_inherit.check_util,
    "P01": c_threads.check_threads,
    "M01": c_inherit.check_inherit,
    "A01": c_kinds.check_kinds,
    "E01": c_entries.check_entries,
    "R06": c_testgen.check_testgen,
    "G01": c_modules.check_override,
    "G02": c_modules.check_modules,
    "R04": c_repro.check_repro,
    "R05": c_repro.check_copy,
    "R03": c_units.check_units,
    "R02": c_lookup.check_lookup,
    "R01": c_layout.check_layout,
    "V01": c_values.check_base,
    "V02": c_values.check_bits,
    "V03": c_values.check_enum,
    "V04": c_values.check_nav,
    "H01": c_backend.check_hashmap,
    "I01": c_backend.check_iter,
    "V05": c_cdecl.check_cdecl,
    "D01": c_deep.check_copy,
    "D02": c_deep.check_equal,
    "D03": c_deep.check_free,
    "D04": c_deep.check_fault,
    "D05": c_deep.check_modes,
    "S01": c_string.check_shallow,
    "T01": c_tags.check_handlers,
    "T02": c_tags.check_map,
    "T03": c_tags.check_string,
    "F01": c_args.check_capture,
    "F02": c_args.check_printf,
    "F03": c_args.check_parse,
    "F04": c_args.check_deep,
    "S02": c_string.check_deep,
}
