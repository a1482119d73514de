#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'C01': ('path-sensitive typestate over exceptional control flow of main() plus value-graph data flow from the console buffer to the write',
            'Covers every path incl. exception edges from every stage call; a partial write by the operating system itself is out of scope.'),
    'C02': ('interprocedural exception-escape analysis of every handler, exit-status rule, and path-sensitive flow with required data missing',
            'Methods are resolved by name; uncaught exceptions count as failing runs.'),
    'C03': ('effect analysis: resolution of every reference in the package against forbidden effects, data flow for write targets',
            'Effects of installed dependencies are taken as documented.'),
    'C04': ('nondeterminism taint: inference of unordered values and classification of every consumer; forbidden clock/random/identity sources',
            'Flow-insensitive inference through slots, attributes, parameters and results.'),
    'C07': ('value graph of main(): call events with path conditions and arguments compared with the specified protocol',
            'All combinations of options are covered symbolically.'),
    'C13': ('value-graph analysis of the summary renderers: the number shown in each cell of an arbitrary type and section is compared, case by case, with the figure that follows from used and total; divisions must be guarded',
            'All maps symbolically; table and JSON, plain and comparison; flash totals dropped exactly without the option.'),
    'C14': ('value-graph analysis of the sorters and table builders specialised by sort column: order, key and direction of every row loop, unchanged contents, refusal paths',
            'All maps symbolically; sort columns 1..4 and -4..-1 of the summary exhaustively, representative columns of the variable-width tables.'),
    'C15': ('value-graph step analysis of the filters and trimmers: an arbitrary entry is kept exactly under the condition the options give, with its values untouched, compared level by level',
            'per-entry keep conditions and contents for get_summary_filtered, trim, rem_summary_unchanged and remove_unused, specialised by option'),
    'C16': ('value-graph and effect analysis of the option table, the format dispatch and each renderer',
            'Every accepted format x report option is analysed with all other options symbolic.'),
    'C20': ('audit of every packaged chip description as data (all types, all window pairs) and value graph of the loader and number evaluator',
            'Every file and pair is examined; the number evaluator is decided by one induction step.'),
    'C21': ('value graph of the section charging: every store to a usage slot with its path condition, specialised to chip and section name',
            'Addresses, sizes and all other sections are symbolic; section names are those of the convention plus ordinary ones.'),
    'C08': ('value graph of section charging, entry merging and removal of unused items: path conditions and amounts of all stores against the specified partition',
            'Any number of sections, regions and types; one arbitrary section and region at a time.'),
    'C09': ('value-graph closed forms (sums over input sections) of the roll-up into archives, object files and symbols, plus data flow between the steps of memorymap.get',
            'Sums over arbitrary input sections and symbols are compared as formulas; no bound on their number.'),
    'C10': ('value graph of region and section splitting: every append of an item or a part with path condition and field values, decided per case in a domain of linear inequalities',
            'One arbitrary region, section, input section and symbol; addresses and sizes are arbitrary non-negative integers.'),
    'C24': ('value-graph closed form of the image size and exact keeping conditions of ELF headers and output sections, plus data flow between the steps',
            'Sums over arbitrary section tables; name rules are decided for all names symbolically and for representative names.'),
    'C27': ('value graphs of the side-file lookup and loaders compared with the specified formulas, and evaluated over a finite abstract domain of file states (abstract interpretation) to name the state with a wrong outcome',
            'Every combination of description, ELF and sdkconfig states with decoys in other directories, supplied or loaded objects.'),
    'C30': ('value-graph analysis of the table and tree renderers: each displayed text is flattened into the values it shows and compared with the name, figures and differences of the entry the enclosing loops stand at',
            'All maps symbolically, with and without comparison, full and abbreviated names.'),
    'C23': ('value graphs of the cross-reference step of the dependency report compared with the specified relation (quantified conditions over the reference list, with a finite-model evaluator naming the table for which they differ)',
            'One arbitrary cross reference entry with an arbitrary list of references, forward and reverse, with and without symbols; inductive over the table.'),
    'C22': ('effect analysis of every write to the report stream over the call graph, and value-graph analysis of what each formatter prints (count, text, print options, quoting)',
            'Every output call of the package and every option combination of the four machine-readable formats.'),
    'C17': ('abstract interpretation of the map parser (texts, linear facts) to a fixpoint over abstract lines, in product with a reference automaton of the map grammar',
            'All sequences of the abstract line shapes up to 2 output and 3 (thorough 4) input sections, with arbitrary names, paths, addresses and sizes.'),
    'C18': ('abstract interpretation of the ELF reader over files of unknown bytes (bit-precise provenance of every decoded field) against the layout tables of the ELF specification',
            'Both classes and byte orders; any field values and table offsets; up to 2 program headers, 8 section headers and 3 symbols per file; any read cut short.'),
    'C19': ('abstract interpretation of the DWARF reader over debug sections of a reference encoder with unknown attribute bytes (bit-precise provenance) against the DWARF standard',
            'All forms, versions 2-5, 32/64-bit DWARF, both classes and byte orders; LEB128 numbers of 1, 2, 3, 5 and 10 bytes with any digits; trees of depth 4, 6 units.'),
    'C26': ('abstract interpretation with a loop-state recurrence analysis (linear arithmetic) and strict monotonicity of a number or length on every iteration of every loop',
            'Arbitrary numbers; up to 2 regions, 2 memory types with second windows, 1 section with 1 input section, 2 symbols, and ELF/DWARF inputs of unknown bytes, up to 8 undecided iterations per loop.'),
    'C25': ('value-graph analysis with a linear-inequality domain: conditions and values of one arbitrary step of the symbol merge and of the DWARF cutting, orders of both walks, data flow between the steps',
            'One arbitrary symbol against the input section under the cursor; inductive over both sorted walks; no bound on their number.'),
    'C12': ('value-graph step analysis of the three report builders: the contribution of one arbitrary map entry to row, type and section columns, with path-normalised stores',
            'One arbitrary entry of an arbitrary map; inductive over the walk; no bound on the tree.'),
    'C05': ('ownership/effect analysis on the value graph of memorymap.diff',
            'Sound for the modelled Python subset: all stores reachable from diff are classified by owner.'),
    'C06': ('value-graph (gated SSA) closed forms of memorymap.diff compared with the specified formulas',
            'Every field of every level is derived symbolically for an arbitrary entry; no bound on the tree.'),
    'C11': ('value-graph closed forms (sums over loops) of memorymap.unify compared with the specified formulas',
            'Sums over arbitrary collections are compared as formulas; no bound on sizes or number of entries.'),
}
GEN = ('Undecided obligations never raise an alarm and are listed in the evidence; trusts the analyser in lib/ and its '
       'model of the Python subset used. The analysed code is parsed, never imported or run.')
NA = {
    'C28': 'The oracle is the binary the linker wrote and the flashing tool produced, which no source of this package contains: equality of runtime quantities with external artefacts has no static argument here.',
    'C29': 'A resource bound over runtime quantities (e.g. nested scans over symbol lists); amortised cost of library calls cannot be bounded soundly from this source with the analyses in reach.',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(HERE, 'checks', i.lower() + '.py')
        if i in TECH and os.path.exists(f):
            cmd = f'python3 checks/{i.lower()}.py'
            checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': f'VERIF_TIER=thorough {cmd}',
                           'technique': 'static analysis: ' + TECH[i][0], 'level': 'other',
                           'level_note': TECH[i][1] + ' ' + GEN})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'Check not built yet; see DESIGN.md.')})
    json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q lib checks', 'checks': checks, 'not_applicable': na},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
