#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
    'C20': 'Pure value arithmetic on two arguments: no schedule, I/O, time, crash or history for a simulator to decide. '
           'What depends on a load history (sums in accounts, inferred amounts, costs) is decided under C05, C06 and C18.',
    'C21': 'A pure function from a word list to two lists: no schedule, I/O, time, crash or history to simulate. '
           'The option spellings the commands accept are generated in the runs of C02, C08, C09, C10, C11 and C17.',
}
WHAT = {
    'C01': 'seeded read deliveries (chunks, short and interrupted reads) and load histories; transactions compared with a reference model',
    'C02': 'one non-transient open/read/decoding failure injected into the tree of sources; the command must fail',
    'C03': 'failures injected at generated bytes and lines of load histories; survivors compared with a reference model',
    'C04': 'crash of the writer at a generated byte (torn file); survivors compared with a reference model',
    'C05': 'seeded load histories of transactions with omitted amounts; exact decimal reference model',
    'C06': 'seeded load histories under a hostile allocator; every account total compared with an exact model after each step',
    'C07': 'seeded growth histories under a relocating, poisoning and reusing allocator; all links followed after each step',
    'C08': 'differential simulation: pieces with interleaved reports and lookups against one load',
    'C09': 'differential simulation: include trees under seeded deliveries against the text in place; opens counted at the file seam',
    'C10': 'differential simulation across two environments (hash seed, clock, zone, allocator, delivery), order against a model',
    'C11': 'seeded scheduler interleaves sessions at I/O and allocation points; every result compared with the solo model',
    'C12': 'seeded load histories with prices; recorded points compared with a reference price table (guarded read hook)',
    'C13': 'seeded price histories, clock skew and jumps; rates compared with a reference graph search (guarded read hook)',
    'C14': 'seeded corruption of the bytes of one number in the source; the load must fail or use the number that is left',
    'C15': 'seeded load histories under a hostile allocator; identity of every commodity checked',
    'C16': 'seeded load and lookup histories under a hostile allocator; tree compared with a reference model',
    'C17': 'the built tool as a process with seeded read and write faults, output compared with the library',
    'C18': 'seeded load histories of priced transactions; costs compared with an exact decimal model',
    'C19': 'interruption storms, one-byte reads and lasting failures; include cycles; bounded number of reads, progress after faults stop',
    'C22': 'open, stat, read and decoding failures injected into histories of loads and commands; every changing system call, descriptor, file and the working directory watched',
    'C23': 'seeded histories with injected failures repeated in one process under a counting allocator',
    'C24': 'seeded corruption of sources (any bytes) within load histories; links, balances and later loads checked after each step',
    'C25': 'seeded histories of calls mixed with loads and failing loads under hostile allocators; reference model and identity of kept handles after each step',
    'C26': 'seeded interleaving of loads with changes of files and working directory; reference model of the simulated disk',
}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i}',
        'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deterministic simulation with fault injection: ' + WHAT[i],
        'level': 'exploration',
        'level_note': 'Seeded search over generated journals, histories, deliveries, schedules and faults: a clean run is evidence over '
                      'the runs counted in the evidence file, not a proof. Trusted: the reference model in harness/src/model.rs, the '
                      'interposed libc entry points, allocator and scheduler in harness/src/sys.rs'
                      + (', the fault shim in harness/shim/shim.c' if i == 'C17' else '')
                      + (', the read hook src/sim.rs' if i in ('C12', 'C13') else '') + '.',
    })
m = {
    'version': 1,
    'setup_cmd': './check.sh --build',
    'hooks': {
        'guard': '--cfg ledger_sim (rustc configuration flag, off by default)',
        'enable': 'C12 and C13 build /repo with RUSTFLAGS="--cfg ledger_sim" (check.sh, function hooks); all other checks use the public API without it',
        'source_commits': ['1f5f37abbd17c15e5e4bbefd90f0814be9a69eb2'],
    },
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'Replay a violation with ./check.sh --replay FILE. Genuine defects are listed in KNOWN_FINDINGS.txt.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
