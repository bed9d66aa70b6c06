#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a check in checks/ is claimed."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('sanitizers', 'ASan+UBSan+asserts (asm and C) over hostile, mutated, generated and conformant input; API histories, chunkings and settings drawn per run'),
 'C02': ('sanitizer + allocator-fill differential', 'MSan on the C build, and byte-exact comparison of runs whose heap and picture memory was pre-filled with different patterns'),
 'C03': ('golden-output monitor', 'every picture of the generated conformance corpus against sample hashes of an independent decoder (libaom)'),
 'C04': ('differential monitor under controlled scheduling', 'full trace of each run compared with the single-threaded one, under a scheduler that owns every interleaving and under native threads'),
 'C05': ('race detector', 'TSan under native and controlled schedules, application threads releasing pictures concurrently'),
 'C06': ('deadlock monitor under controlled scheduling', 'scheduler reports when no thread can run; watchdog on native threads; everything withheld must come out'),
 'C07': ('differential monitor', 'traces compared across CPU flag masks; guard pages around picture planes'),
 'C08': ('resource ledger', 'every allocation, wrap, picture and thread of a run is matched with exactly one release'),
 'C09': ('immutability monitor', 'held pictures are re-hashed after every later call and after close; freed memory is poisoned'),
 'C10': ('guard pages and ownership ledger', 'input placed in front of an inaccessible page, write-protected, re-hashed; unmapped on release'),
 'C11': ('fault injection', 'each heap, picture and thread request fails in turn; return codes, ledger and a full second decode are checked'),
 'C12': ('trace monitor against an executable model', 'properties of each picture predicted from an independent OBU parser'),
 'C13': ('trace monitor against an executable model', 'metadata of each picture predicted from the inserted metadata OBUs'),
 'C14': ('metamorphic differential', 'the same stream re-cut and re-wrapped must give the same trace'),
 'C15': ('differential monitor', 'trace after a flush compared with that of a new decoder'),
 'C16': ('differential monitor', 'pictures before and after the damage compared with those of the undamaged stream'),
 'C17': ('differential monitor', 'grain in the decoder vs grain applied afterwards; source re-hashed'),
 'C18': ('trace monitor against an executable model', 'selection predicted from the full decode of the same stream'),
 'C19': ('trace monitor', 'picture allocations and return codes against the coded sizes around the limit'),
 'C20': ('allocator monitor', 'allocation parameters, guard zones, strides and placement; samples compared with the default allocator'),
 'C21': ('differential monitor', 'standalone parser against the decoder and an independent parser, on valid and mutated bytes'),
 'C22': ('trace monitor against an independent parser', 'every header field attached to a picture against an independent bit-level parser'),
 'C23': ('trace monitor against an executable model', 'event flags predicted from the sequence headers sent'),
 'C24': ('API monitor', 'invalid arguments and settings with object re-hash, ledger and expected codes'),
 'C25': ('latency monitor', 'frames accepted vs pictures available after each call'),
 'C26': ('race detector and differential', 'several decoders at once, TSan, outputs against stand-alone runs'),
 'C27': ('differential monitor', 'CLI on IVF, Annex B and Section 5 files of the same stream'),
 'C28': ('differential monitor', 'CLI output files against pictures recorded from the library and an independent muxer model'),
 'C29': ('sanitizers', 'ASan+UBSan CLI on malformed containers and options, exit status and file-system monitor'),
 'C30': ('differential monitor against an independent decoder', 'each filter mask against libaom output of the same streams with the filters signalled off'),
 'C31': ('differential monitor', 'traces across strictness, logger and polling settings; rejection of streams with planted violations'),
 'C32': ('resource monitor', 'heap ledger, picture, input, user-data and thread counts over many rounds of the same history'),
 'C34': ('trace monitor against an executable model', 'an independent model of the reference slots says which frames must be refused, which must be unaffected, and which must be accepted'),
 'C33': ('differential monitor', 'pictures and return codes of reduced builds against the reference hashes'),
}
NA = {}
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists(f'{R}/checks/{i}.py'):
        lvl = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in open(f'{R}/checks/{i}.py').read() else 'exploration'
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 run.py {i}', 'technique': 'runtime monitoring: ' + T[i][0], 'level': lvl, 'level_note': T[i][1]})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m lib.build', 'checks': checks, 'not_applicable': na}
open(R + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', [x['property'] for x in na], 'not claimed')
