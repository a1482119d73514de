#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so the anchors stay readable."""
import json, os
P = []
MM, MF, MAIN, ELF, DEPS = ('esp_idf_size/memorymap.py', 'esp_idf_size/mapfile.py', 'esp_idf_size/main.py',
                           'esp_idf_size/elf.py', 'esp_idf_size/deps.py')
FT, FJ, FC, FR, FTR, FD, LOG = ('esp_idf_size/format_table.py', 'esp_idf_size/format_json.py', 'esp_idf_size/format_csv.py',
                                'esp_idf_size/format_raw.py', 'esp_idf_size/format_tree.py', 'esp_idf_size/format_dot.py', 'esp_idf_size/log.py')

def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)

NOART = 'The one test that runs offline only prints the documentation; even the full suite only checks a few fixed hello_world artifacts per chip. '

p('C01', 'The output file is all-or-nothing',
  'With an output file requested, that file (and any directory it needs) is created or changed only after the complete report has been rendered successfully, and then receives exactly the rendered report, without terminal escape sequences. Whatever fails earlier - unreadable or malformed input, an unknown archive, a bad sort column, an exception or an interrupt inside a formatter - the previous content of the file is left untouched.',
  ['inputs', 'fault_sequences'], 'every failure point before the report is complete, every format and option combination',
  NOART + 'No test fails in the middle of a report with an output file requested.',
  [MAIN], [('buffered rendering, single write after dispatch', 'main._run'), ('the only file writer', 'main._write_output_file')],
  ['content of the -o file after a failing run'])
p('C02', 'A run that fails never exits with success',
  'Whenever the tool detects that it cannot deliver the requested report (unreadable or malformed map, unknown chip target, missing data for the requested report, unknown archive or column, unwritable output file) it prints an error and the process ends with a non-zero exit status. Problems signalled by the parsing layers are never silently swallowed, except for optional side files and the consistency warning, which are reported in the log, and the library interface reports map and target problems through its documented exception type.',
  ['inputs', 'fault_sequences'], 'every raise and fatal-error site reachable from the command line or the library entry points',
  NOART + 'No test runs a failing input.',
  [MAIN, MM, MF, LOG, DEPS, FT, FD], [('exception conversion and the fatal-error helper', 'main._run, log.die, memorymap.get')],
  ['process exit status', 'exception type escaping memorymap.get'])
p('C03', 'Analysis is read-only and never executes its inputs',
  'Apart from the explicitly requested output file and its parent directories, running the tool or using the library changes nothing in the file system, starts no processes and opens no network connections. Nothing read from the analysed map, ELF, project description or configuration files is ever evaluated as code.',
  ['inputs', 'configurations'], 'every call path from the command line and the library interface',
  'Tests cannot enumerate the call sites or all hostile inputs; side effects on other files are not observed by any test.',
  [MAIN, MM, MF, ELF], [('only writer', 'main._write_output_file'), ('safe loaders', 'memorymap._load_json_file, memorymap._get_memory_types')])
p('C04', 'Reports are a deterministic function of the inputs',
  'Running the same command twice on the same input files produces byte-identical reports: nothing in the content or the order of a report depends on hash seeds, set iteration order, object identities, time, randomness or directory listing order.',
  ['histories', 'configurations'], 'every report, every process (hash seed)',
  'A test in one process sees one hash seed; ordering differences need particular string hashes to show.',
  [MM, DEPS, FT, FTR, FD, FJ, FC], [('ordered containers on the way to the formatters', 'deps.get_archives_deps, deps.get_archives_revdeps, memorymap')],
  ['report text under different PYTHONHASHSEED'])
p('C05', 'Comparing two memory maps changes neither of them',
  'Computing the difference of two memory maps returns a new map and leaves both arguments exactly as they were; the result shares no mutable part with either argument, so changing or rendering the result can never alter the inputs, and each can be reused for further comparisons.',
  ['inputs', 'histories'], 'all pairs of memory maps, all later uses of the arguments or the result',
  NOART + 'No test calls the comparison at all, let alone reuses its arguments.',
  [MM], [('deep copies of both sides', 'memorymap.diff')])
p('C06', 'Every difference value is current minus reference',
  'In the difference of two memory maps every entry present in either map appears, at every level (memory types, sections, archives, object files, symbols, and the image size), and each difference field holds the current value minus the reference value of that same entry, an entry missing on one side counting as zero. Current sizes are kept as they are, and entries that exist only in the reference show a current size (and usage) of zero.',
  ['inputs'], 'all pairs of memory maps: entry in both, only current, only reference, at each of the five levels',
  NOART + 'No test covers --diff.',
  [MM], [('union of the trees, then per level subtraction', 'memorymap.diff')])
p('C07', 'A comparison treats both projects alike',
  'When two projects are compared, the map given as positional argument is always the current side and the one given to the diff option the reference side, and both go through the same option-controlled preparation (hiding unused items, ignoring the flash size, symbol and DWARF loading) before they are subtracted; aggregation under abbreviated names is applied to the result after the subtraction. Options that cannot be combined are neutralised with a warning instead of producing a mixed report.',
  ['configurations', 'inputs'], 'all option combinations with a reference map',
  NOART + 'No test covers --diff.',
  [MAIN], [('preparation pipeline', 'main._run')])
p('C08', 'Memory type usage and totals account every byte once',
  'In a memory map every accepted output section is charged to exactly one memory type, the one of the memory region containing its address (or, on overflow, of the nearest region before it, under a name marked as overflow), and the usage of each memory type equals the sum of the sizes of the sections listed under it, also after unused items are removed. The total size of a memory type is the sum of the lengths of the regions mapped to it, a region that is only an alias of an already counted one being counted once. Nothing is dropped without a warning.',
  ['inputs'], 'all section lists, all region lists, all chip descriptions',
  NOART + 'Overflow, aliasing and unmapped sections do not occur in the artifacts.',
  [MM], [('assignment of sections and regions', 'memorymap._get_mem_type_map'), ('unused removal', 'memorymap.remove_unused'), ('section filter', 'memorymap._filter_map_sections'), ('region filter', 'memorymap._filter_memory_regions')])
p('C09', 'Archive, object file and symbol sizes roll up from input sections',
  'Within each output section the size of every archive is the sum of the sizes of all input sections attributed to it, the size of every object file the sum over the input sections of that object file in that archive, so object files always add up to their archive; every kept input section contributes exactly once, padding never counts, and symbols are listed under the object file their input section belongs to with their own size.',
  ['inputs'], 'all lists of input sections with any repetition of archives, object files and symbols',
  NOART + 'Tests compare stored snapshots only.',
  [MM], [('roll-up', 'memorymap._add_archives_to_sections')])
p('C10', 'Splitting at memory type borders conserves bytes',
  'When a memory region or an output section crosses from one memory type into another it is cut exactly at the border: the two parts are adjacent, their sizes add up to the original, and the same holds for every input section (size and padding separately) and symbol lying across the border, each of the others going undivided to the side it lies on. No part of a region, section, input section or symbol is lost, duplicated or changed by splitting.',
  ['inputs'], 'all layouts of sections, input sections, symbols and regions relative to the border',
  NOART + 'Only a few artifacts ever split, none at boundary coincidences.',
  [MM], [('region split', 'memorymap._split_memory_regions'), ('section split', 'memorymap._split_map_sections')])
p('C11', 'Unifying by abbreviated names conserves all sizes',
  'After aggregating a memory map by abbreviated names, each entry is found under its abbreviated name and its size and size difference are the sums over all entries of the same parent with that abbreviated name, at every level down to symbols; no entry is lost or counted twice, and memory type sizes and usages are unchanged.',
  ['inputs'], 'all memory maps, any collisions of abbreviated names at any level',
  NOART + 'No test uses --unify.',
  [MM], [('recursive aggregation', 'memorymap.unify')])
p('C12', 'Per-archive, per-file and per-symbol reports add up',
  'In the archive, object file and symbol reports the total of each row equals the sum of its memory type columns, and each memory type column the sum of its section columns, for sizes and for differences alike; every entry of the memory map contributes exactly once, to the row it belongs to (for the symbol report exactly the symbols of the archives named by the user) and to the columns of its memory type and section.',
  ['inputs', 'configurations'], 'all memory maps, with and without unify and diff, name collisions included',
  NOART + 'Collisions of file or symbol names under --unify are not covered.',
  [MM], [('summaries', 'memorymap.get_archives_summary, get_object_files_summary, get_symbols_summary, _get_summary_memory_types, walk')])
p('C13', 'Usage figures in the summary are consistent',
  'In the summary reports, remaining or free space is the total minus the used bytes and the percentage is used divided by total, for memory types and for their sections relative to the type; the reference-side percentage and the differences of remain, total and percentage follow from the corresponding current and reference values, JSON and table agree, and where no total is known nothing is divided and no headroom is claimed. Without the option to use the flash size, flash memory types have no total.',
  ['inputs', 'configurations'], 'all memory maps, zero totals included',
  NOART + 'Zero totals, overflows and diffs are not covered.',
  [FT, FJ, MM], [('summary table', 'format_table.get_summary_table'), ('json summary', 'format_json.show_summary'), ('flash size', 'memorymap.ignore_flash_size')])
p('C14', 'Sorting only permutes entries, by the requested key and direction',
  'Sorting a report keeps every row with all its values and only reorders rows and nested levels, by the numeric value of the requested column (or of its difference when requested), descending by default and ascending when reversed; a column can be given by positive or negative number or by its title, and the description column or a column that does not exist is refused with an error.',
  ['inputs', 'configurations'], 'all maps, all sort options',
  NOART + 'Only the default order is ever compared.',
  [MM, FT], [('sorting', 'memorymap.sort, sort_dict_by_key, get_summary_sorted, format_table._get_table_sorted, get_summary_table')])
p('C15', 'Entries are hidden only as the options say',
  'Without a filter no row is filtered, with filters a row of a table, CSV or DOT report is shown exactly when its displayed name matches at least one pattern anywhere; filtering never changes the values of a row. Unused memory types (no usage) and sections (no archives) disappear unless requested, and unchanged entries are hidden only in a comparison and only when their difference is zero and unchanged items were not requested; the tree is cut only below the requested level of detail, or to the requested archive.',
  ['inputs', 'configurations'], 'all maps and option combinations',
  NOART + 'Filtering, diff trimming and their combinations are not covered.',
  [MM, FT, FTR, FC, FD, FJ], [('filter', 'memorymap.get_summary_filtered'), ('unchanged', 'memorymap.rem_summary_unchanged, trim'), ('unused', 'memorymap.remove_unused')])
p('C16', 'Every documented option and format is honoured',
  'Every accepted output format is dispatched to the renderer of that format, every report option selects its report in every format that supports it (archives, archive details, dependencies, files, else the summary) and is not shadowed by another one; every option the command line accepts reaches the code that consults it, and no renderer consults an option that does not exist. Table and CSV show the same data, and names are abbreviated unless full names were requested.',
  ['configurations'], 'all formats times all report options',
  'The formats times options product is not tested; only table (four reports) and raw are.',
  [MAIN, FT, FJ, FC, FR, FTR, FD], [('dispatch', 'main._run, format_*.show'), ('click options', 'main.main')])
p('C17', 'The map parser loses nothing and rejects what it cannot read',
  'Every memory region, output section and input section the parser recognises in the link map reaches the result with its own name, address, size, archive and object file; a pending input or output section is never dropped or overwritten by the start of the next one. Only an input section superseded by the next one at the same address, lying outside its output section, or at the address of padding is counted as zero, padding is credited to the input section it follows (or, when that one counts as zero, to the nearest earlier one that does not), never twice, and a recognised line of unexpected shape is an error naming file and line, never silently misread.',
  ['inputs'], 'all map files',
  'Parser tests only check that stored maps parse without error; they cannot enumerate line sequences.',
  [MF], [('state machine', 'mapfile.MapFile._get_sections'), ('regions', 'mapfile.MapFile._get_memory_regions'), ('cross references', 'mapfile.MapFile._get_cross_reference_table')])
p('C18', 'ELF structures are decoded as the ELF format defines them',
  'For 32-bit and 64-bit, little and big endian ELF files, every file header, program header, section header and symbol field gets the bytes the ELF specification assigns to it, and symbol type, binding and visibility, string lookups and the numeric constants for section types, flags, symbol types and special indices are those of the specification. A truncated or foreign file is reported as an error instead of being misread.',
  ['inputs'], 'all ELF files of both classes and byte orders',
  'The artifacts are 32-bit little endian only.',
  [ELF], [('formats and decoding', 'elf.Elf_Ehdr, Elf_Phdr, Elf_Shdr, Elf_Sym, Elf.get_fmt, Elf.get_int')])
p('C19', 'DWARF data is decoded with the encoding each form prescribes',
  'Each DWARF attribute form is read with exactly the size and encoding the DWARF standard prescribes, so the cursor always lands on the next item; LEB128 numbers, unit headers of all supported versions and 32/64-bit formats, abbreviation tables and entry trees are decoded as specified, unsupported forms or versions are refused with an error, and evaluating an attribute repeatedly gives the same answer.',
  ['inputs'], 'all DWARF sections, every form',
  'No test reads DWARF at all.',
  [ELF], [('forms', 'elf.Dwarf_CU.get_attr_value'), ('leb128', 'elf.Elf.get_uleb128, get_sleb128'), ('units', 'elf.Dwarf_CU.__init__, elf.Elf.CUs')])
p('C20', 'Every chip description is complete and consistent',
  'For every supported chip the packaged description loads, each memory type has a numeric base address and a positive length given as plain integer arithmetic, secondary mappings are optional, and the address windows of differently named memory types never overlap partially, so every address has one well-defined set of candidate memory types. Every type named as external RAM is recognised as such, and every description file ships with the package.',
  ['configurations'], 'all chip description files',
  'Tests exercise only addresses used by hello_world.',
  ['esp_idf_size/chip_info', MM, 'pyproject.toml'], [('descriptions', 'esp_idf_size/chip_info/*.yaml'), ('loader', 'memorymap._get_memory_types')])
p('C21', 'External RAM sections are charged to external RAM',
  'On every chip with an external RAM memory type, an output section whose name marks it as external RAM (bss or noinit, including numbered variants) is charged with its full size to that type regardless of its address, and never to the flash type sharing the address window; all other sections, and all sections on chips without external RAM, are assigned by address only.',
  ['inputs', 'configurations'], 'all section names and addresses on all chips',
  NOART + 'hello_world has no external RAM sections.',
  [MM, 'esp_idf_size/chip_info'], [('name routing', 'memorymap._get_mem_type_map')])
p('C22', 'Machine-readable output is exactly one faithful document',
  'In JSON and raw formats the report stream receives exactly one JSON document and nothing else (notes, warnings and errors go to the error stream), and names from the analysed project appear in it exactly as read, never interpreted as formatting instructions. CSV output has one line per table row with every cell quoted, and DOT output is one complete graph.',
  ['inputs', 'configurations'], 'all names, all report options in json2, raw, csv and dot formats',
  NOART + 'No test has names with bracketed text.',
  [FJ, FR, FC, FD, LOG], [('printing', 'format_json, format_raw, format_csv.show_table, format_dot, log.print')])
p('C23', 'Archive dependencies mirror the cross reference table',
  'The dependency report contains an archive pair with a symbol exactly when the cross reference table says one of them defines that symbol and the other, different, one references it, both being part of the image and the symbol being a function or object with a place in the ELF image; the reverse report is exactly the transposed relation, and each archive is shown with its own size from the archive report. Arrows in the graph always point from the user to the definer.',
  ['inputs'], 'all cross reference tables, both directions',
  NOART + 'No test covers dependencies.',
  [DEPS, FD, FT, FTR], [('edges', 'deps.get_archives_deps, get_archives_revdeps, _filter_crt')])
p('C24', 'Image size counts exactly the loaded bytes',
  'The reported image size is the sum of the sizes of the allocated sections that carry data in the ELF file, or without an ELF file of all kept output sections except zero-initialised and no-init ones; sections that are empty, not allocated, placeholders for overlapping memory or marked as not loaded are never counted as memory usage.',
  ['inputs', 'configurations'], 'all section tables, with and without ELF file',
  NOART + 'Tests compare one snapshot per chip with ELF present.',
  [MM], [('image size', 'memorymap._get_image_size, _get_elf_sections_headers, _filter_map_sections')])
p('C25', 'Symbols are attributed to the input section containing them',
  'With an ELF file every sized function or object symbol is attached, with its own name, address and size, to the input section whose address range contains it, and only there; symbols before or between kept input sections are left out, a symbol behind the last one or one that does not fit is an error, input sections without symbols and all input sections without an ELF file are represented by one symbol covering the whole input section. With DWARF attribution, cutting an input section into symbol-sized pieces keeps its total size.',
  ['inputs'], 'all symbol tables and input section layouts',
  NOART + 'Tests compare one snapshot per chip.',
  [MM], [('attribution', 'memorymap._add_symbols_to_sections, _expand_input_sections')])
p('C26', 'Analysing any finite input terminates',
  'For every input file the analysis terminates: each loop that is not a plain walk over a finite collection makes strict progress on every iteration (consumes input, shrinks what is left to do, or leaves the loop).',
  ['inputs'], 'all map, ELF and DWARF inputs',
  'Non-termination needs unusual region layouts or truncated debug data; no test uses such.',
  [MM, MF, ELF], [('loops', 'memorymap._split_memory_regions, _split_map_sections, _add_symbols_to_sections, elf cursor loops')])
p('C27', 'Project side files are used only when they belong to the map',
  'The project description, the ELF file and the link-time-optimisation setting are looked up next to the analysed map, independent of where the project was built; a project description naming a different executable is ignored, missing or unreadable side files never abort the analysis, the target from a matching description takes precedence over the one found in the map, and a parsed map or ELF object supplied by the caller is used instead of loading another one.',
  ['configurations', 'inputs'], 'all combinations of present, absent, mismatching or broken side files',
  NOART + 'Only complete matching project directories are tested.',
  [MM], [('lookup', 'memorymap.get, get_proj_desc, get_elf, _load_json_file, _load_elf_file')])
p('C30', 'Every figure displayed belongs to the entry it stands beside',
  'In the tables and CSV reports each row of the archive, object file and symbol reports is named after its entry (by its abbreviated name when requested) and shows the total of that entry followed by its figure for every memory type and section, the columns being headed by the names of those memory types and sections; in the tree every memory type, section, archive, object file and symbol of the map appears below its parent with its own name and size (memory types with usage and, if known, total); the image size note shows the image size. When two projects are compared every figure is accompanied by the difference field of that same entry unless it is zero, and otherwise no difference is shown.',
  ['inputs', 'configurations'], 'all memory maps, with and without comparison and abbreviated names',
  NOART + 'No test looks at the tree; tables are compared for one project per chip.',
  [FT, FTR], [('tables', 'format_table._get_table_sorted, get_*_table, color_diff, color_size'), ('tree', 'format_tree.show_memmap'), ('note', 'format_table.show_image_info')])
p('C28', 'Sizes equal what the linker really placed on the target',
  'For every project the sizes reported for each memory type equal the bytes the linker really placed there, and the image size equals the size of the flashed binary before padding.',
  ['programs'], 'all firmware projects and toolchain versions',
  'Needs real builds with every toolchain; the artifacts are a handful of fixed builds.',
  [MF, MM], [('parser and accounting', 'mapfile, memorymap')])
p('C29', 'Analysis time and memory stay proportional to the input size',
  'Time and memory needed for a report grow at most linearly (up to sorting) with the size of the map and ELF files.',
  ['inputs'], 'all inputs of any size',
  'Tests use fixed small inputs and no timing.',
  [MF, MM, DEPS, ELF], [('algorithms', 'whole package')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
