#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 'C01': ('exploration', 'runtime monitor: bytes delivered by generated coder graphs vs an independent reference writer',
         'Every byte of every generated archive is compared with what was archived. Trusts the reference writer (checked against 7-Zip-made samples and the standard library). Inputs are sampled by seed, not enumerated.'),
 'C02': ('exploration', 'runtime io.Reader contract monitor over randomised read sizes, with poisoned buffers',
         'Read schedules are sampled, boundary sizes of all internal buffers favoured.'),
 'C03': ('exploration', 'online model check of handle histories (content and position model per handle)',
         'Random histories with up to dozens of live handles; sampled.'),
 'C04': ('exploration', 'race detector plus per-goroutine oracle and watchdog under injected delays',
         'Go race detector build of the real code; schedules are sampled with injected yields in storage and decoders. Third-party decoders are included.'),
 'C05': ('exploration', 'listing of generated headers vs the recorded fields',
         'Random headers with every optional section; sampled.'),
 'C06': ('fault_enumeration', 'fault injection: single bits, bursts and truncations of checksummed bytes, oracle on the listing',
         'All single bits of small archives and every truncation point are enumerated; bursts are sampled.'),
 'C07': ('exploration', 'structure-aware hostile inputs under panic, CPU-time and progress monitors',
         'Grammar-based mutation with valid checksums; sampled. A crash of the worker process is attributed to its case.'),
 'C08': ('fault_enumeration', 'truncation of packed data and wrong declared sizes, length and final-error monitor',
         'Every truncation point of short streams, sampled ones of longer streams. One recorded finding (over-declared size) is printed as KNOWN-FINDING.'),
 'C09': ('exploration', 'io/fs contract monitor: fstest.TestFS and an independent path model',
         'Adversarial name sets sampled from a grammar.'),
 'C10': ('exploration', 'differential monitor over opening functions and volume splits',
         'Splits and openers sampled; monitors open files through /proc/self/fd.'),
 'C11': ('exploration', 'differential monitor over prefixes with decoys at enumerated alignments',
         'All alignments around the search-buffer boundaries, decoys sampled.'),
 'C12': ('exploration', 'contents vs an independent key derivation and encryption, key-cache histories',
         'Parameters and histories sampled; rounds mostly up to 2^14 in the quick tier, a few of 2^19 and 2^20.'),
 'C13': ('fault_enumeration', 'error-chain monitor over wrong passwords, damage and injected read errors',
         'Every error of every call is inspected; faults are enumerated per read call on small archives.'),
 'C14': ('exploration', 'call-sequence monitor against a handle model',
         'Random sequences over all kinds of handles.'),
 'C15': ('exploration', 'work accounting: packed bytes read and coder constructions per history',
         'Counts are exact; archives and histories sampled.'),
 'C16': ('fault_enumeration', 'fault-injecting ReaderAt, one run per read call and kind of failure',
         'All read calls of small archives are enumerated for each fault kind, sampled on larger ones.'),
 'C17': ('exploration', 'recording decompressors checked against the recorded coder graph',
         'Method ids, property lengths, arities and behaviours sampled.'),
 'C18': ('exploration', 'life-cycle monitor on instrumented decoders, descriptors and goroutines, race detector',
         'Each decoder instance is a monitored automaton; histories, schedules and failing opens are sampled.'),
 'C19': ('exploration', 'table oracle over attribute values',
         'Quick: all 2^16 Unix halves, all 2^16 low halves and samples; thorough: all 2^32 values.'),
 'C20': ('fault_enumeration', 'allocation counters while every header number is replaced by extreme values',
         'Every number of the generated headers is replaced in turn; the bound is on runtime.MemStats counters.'),
 'C21': ('fault_enumeration', 'intact entries interleaved with damaged streams, contents oracle',
         'Damage positions and histories sampled for every method.'),
 'C22': ('exploration', 'scaling monitor: CPU time of each operation at n and 16n',
         'Measures growth between two sizes for each shape, with wide margins (64 times and 0.2 s allowed for 16 times the size) and confirmation; slowdowns by a constant factor are not reported.'),
 'C23': ('exploration', 'live-heap monitor over repeated use and over long streams',
         'Live heap after full garbage collections: growth in each of six rounds of repetitions, or use beyond the window plus 4 MiB while 9 to 28 MiB pass through; leaks below 48 bytes per repetition are not reported.'),
}
checks = [{'property': k, 'quick_cmd': f'./run.sh {k} quick', 'thorough_cmd': f'./run.sh {k} thorough',
           'evidence_file': f'evidence/{k}.json', 'technique': v[1], 'level': v[0], 'level_note': v[2]}
          for k, v in sorted(T.items())]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({'version': 1, 'setup_cmd': './run.sh setup', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the monitors observe the public API, the registry of decompressors, the storage and the process.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
