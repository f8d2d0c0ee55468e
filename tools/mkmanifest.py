#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json: one entry per property, from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

SWEEP = 'Every place of small samples is also taken through all values of 8 bits and the notable ones of 16 and 32 bits (thorough: all of 16). '
DIFF = ('Each execution of the real parser is compared leaf by leaf with the model: the one the generated file was encoded from, '
        'or the one a reference decoder written from the JVM specification finds in arbitrary bytes; that decoder is itself checked '
        'by re-encoding real class files byte for byte. ')
TRUST = 'Exploration: no alarm means that nothing went wrong in the executions observed. Runs on x86-64 and (all but C29 and C30) on 32-bit x86. Trusts the model, the reference decoder and the monitors in /verif/harness.'

# id: (technique, rule, note)
T = {
'C01': ('runtime monitoring: panic/overflow/abort and step-limit monitors over hostile, mutated and coverage-evolved inputs',
        'Random bytes behind valid headers, every single byte of sample files replaced by chosen values, mutants of generated and JDK classes, hostile counts and lengths, growing families, and inputs evolved by the coverage counters of jbcrs. Non-trivial: distinct inputs that got past the magic.',
        'The build has overflow checks and debug assertions; a logical clock of executed code regions (not wall time) decides that a parse does not end.'),
'C02': ('runtime monitoring: stack-exhaustion monitor (worker death) on 2 MiB threads, in an optimised and an unoptimised build',
        '24 ways of nesting element values and codes, 28 depths from 0 to 60000, random depths and mixtures; parse, Debug and drop on 2 MiB threads. Non-trivial: distinct inputs nested at least once.',
        'Depths 33 up are only required to end normally; up to 32 the decoded value is compared.'),
'C03': ('runtime monitoring: counting allocator (peak, leaks) against an oracle bound on every parse',
        'Random classes, every list of the format at sizes up to its maximum, counts that promise far more than the file holds at every site, nested promises. Non-trivial: distinct inputs longer than the header.',
        'The allocator hook counts requested bytes of the parsing thread exactly; the bound is 32 MiB + 512 bytes per input byte.'),
'C04': ('runtime monitoring: differential trace oracle of pool lookups at all 65536 indices',
        DIFF + 'Here: pools of all constant kinds, duplicates, double slots at every position, sizes up to 65535, JDK classes. Non-trivial: distinct pools.', ''),
'C05': ('runtime monitoring: differential oracle against an independent modified UTF-8 decoder',
        DIFF + 'Here: all strings of one and two bytes, all classes of three bytes, all surrogate pairs by halves, all scalar values, random and damaged strings. Non-trivial: distinct strings.',
        'Overlong forms are left open.'),
'C06': ('runtime monitoring: online checker of push histories against a shadow pool',
        'Histories of pushes (equal constants, all kinds, double slots) on new, sized, default and parsed pools, every result and all earlier indices checked against a shadow. Non-trivial: distinct histories.', ''),
'C07': ('runtime monitoring: online checker of push histories around the size limit',
        'Histories that fill pools to every boundary (65532 to 65535 by all paths) and keep pushing singles, doubles and known constants. Non-trivial: distinct histories.', ''),
'C08': ('runtime monitoring: offline checker of iteration traces against lookups',
        'Iterations over pushed, parsed and full pools, recorded and compared with the shadow pool and with lookup at each index. Non-trivial: distinct pools.', ''),
'C09': ('runtime monitoring: oracle over all 65536 indices of every lookup method',
        'Pools with valid, dangling, self-referring and wrongly typed references, asked at every index by each of the lookup methods. Non-trivial: distinct pools.', ''),
'C10': ('runtime monitoring: oracle over pairs of constants (equality, hash, interning)',
        'All pairs of kinds, siblings that differ in one field or bit, NaN payloads and zeros, crowds interned in one pool. Non-trivial: distinct pairs.', ''),
'C11': ('runtime monitoring: differential oracle on whole parsed classes', DIFF + 'Here: versions, names, interfaces, fields and methods of random classes, lists at boundary sizes, mixed mutations, JDK classes. ' + SWEEP + 'Non-trivial: distinct class files.', ''),
'C12': ('runtime monitoring: differential oracle on attribute lists and names', DIFF + 'Here: every predefined name in every place, near misses by case, byte, prefix and suffix, unknown names, names that are no strings. ' + SWEEP + 'Non-trivial: distinct class files.', ''),
'C13': ('runtime monitoring: differential oracle on instruction decoding against a table from the specification', DIFF + 'Here: all 256 opcodes and all 256 wide opcodes at every alignment and boundary operand, switches of all sizes and alignments, undefined forms, random code. Non-trivial: distinct codes.', ''),
'C14': ('runtime monitoring: differential oracle and tiling checker on code attributes', DIFF + 'Here: random code, code lengths around instruction ends, codes up to 65535 bytes, exception tables at boundary sizes, attributes of all kinds inside of the code. ' + SWEEP + 'Non-trivial: distinct codes.', ''),
'C15': ('runtime monitoring: differential oracle on stack map tables', DIFF + 'Here: all 256 frame types and all 256 verification type tags in every position, tables of boundary sizes, damaged tables. ' + SWEEP + 'Non-trivial: distinct tables.', ''),
'C16': ('runtime monitoring: differential oracle on annotations', DIFF + 'Here: all 256 element tags in every position, nested values, lists of boundary sizes, damaged annotations. ' + SWEEP + 'Non-trivial: distinct attributes.', ''),
'C17': ('runtime monitoring: differential oracle on type annotations', DIFF + 'Here: all 256 target types and path kinds, tables and paths of boundary sizes, damaged annotations. ' + SWEEP + 'Non-trivial: distinct attributes.', ''),
'C18': ('runtime monitoring: differential oracle on method and debug tables', DIFF + 'Here: each table with random and boundary contents and boundary sizes. ' + SWEEP + 'Non-trivial: distinct attributes.', ''),
'C19': ('runtime monitoring: differential oracle on class and module attributes', DIFF + 'Here: each attribute with random and boundary contents and boundary sizes. ' + SWEEP + 'Non-trivial: distinct attributes.', ''),
'C20': ('runtime monitoring: fault injection into attribute lengths with an accept/reject oracle', 'Every attribute length of generated classes, at every level, made longer or shorter by small, large and structural amounts, with contents that would fit the wrong length. The reference decoder decides. Non-trivial: distinct altered files.', ''),
'C21': ('runtime monitoring: truncation at every byte with an error-kind oracle', 'Every strict prefix of generated classes and of JDK classes. Non-trivial: distinct prefixes.', ''),
'C22': ('runtime monitoring: single-fault injection by layout map with an exact-error oracle', 'Valid classes in which exactly one spot (found by the layout map of the encoder) is made malformed; the error must be the one that describes it. Non-trivial: distinct faults.', ''),
'C23': ('runtime monitoring: enumeration of flag words with a bit oracle', 'All 65536 flag words in each of the places flags occur, and every named constant against the specification. Non-trivial: distinct words and places.', ''),
'C24': ('runtime monitoring: differential oracle against an independent type descriptor recogniser', 'All short strings over the alphabet of descriptors, limits of dimensions, every character at every position, generated and damaged descriptors. Non-trivial: distinct strings.', ''),
'C25': ('runtime monitoring: differential oracle against an independent method descriptor recogniser', 'As C24, for method descriptors up to 255 parameters and beyond. Non-trivial: distinct strings.', ''),
'C26': ('runtime monitoring: round-trip oracle (parse then format, format then parse)', 'Every descriptor that parses, and descriptor values built directly. Non-trivial: distinct strings.', ''),
'C27': ('runtime monitoring: error-value oracle', 'Strings of all kinds, also with characters of several bytes, given to both parsers; every error is inspected. Non-trivial: distinct rejected strings.', ''),
'C28': ('runtime monitoring: metamorphic oracle (repetition, placement, history, threads, trailing bytes)', 'The same bytes parsed repeatedly, at other addresses, after other inputs, on other threads at the same time, and with bytes behind them; all outcomes compared in full. Non-trivial: distinct inputs.', ''),
'C29': ('sanitizers: AddressSanitizer, ThreadSanitizer and Miri (thorough: MemorySanitizer too) over all workloads', 'The workloads of the other properties under the sanitizers; inputs lie in blocks of exactly their size. Non-trivial: distinct inputs of the run that saw most.', 'Miri also runs its data race detector; the quick check gives ThreadSanitizer the threaded workload only.'),
'C30': ('runtime monitoring: executed-region, allocation and callgrind instruction counts against linear bounds', 'Hostile and ordinary inputs, each checked against a bound on executed regions and allocations per byte; 155 families of inputs that grow (40 of them of constants that collide under weak hashes), whose executed instructions callgrind counts at several sizes. Non-trivial: distinct inputs.', 'Counts, not times: 200 regions and 10 allocations per byte; growth of instructions at most 2.5 times the growth of the input.'),
}

props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
assert [p['id'] for p in props] == sorted(T), 'properties and table differ'
with open(os.path.join(HERE, 'rules.json'), 'w') as f:
    json.dump({k: v[1] for k, v in T.items()}, f, indent=1)
    f.write('\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 /verif/run.py setup',
    'checks': [{
        'property': k,
        'quick_cmd': f'python3 run.py {k} quick',
        'thorough_cmd': f'python3 run.py {k} thorough',
        'technique': v[0],
        'level': 'exploration',
        'level_note': (v[2] + ' ' + TRUST).strip(),
    } for k, v in T.items()],
    'not_applicable': [],
    'notes': 'No hooks in /repo are needed: everything is observed at the public API, in the allocator, in coverage counters and by sanitizers.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
