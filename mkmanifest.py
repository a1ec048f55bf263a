#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json
T = 'deterministic simulation with fault injection: '
N = ('Seeded sampling of schedules, faults, programs and inputs, no proof. Real code: every operator, Program, Pipeline, '
     'Composite, FactoryOp, bindings of /repo. ')
C = {
 'C01': 'runs with snapshot/restart and host crashes at random points against the undisturbed twin',
 'C02': 'interleaved snapshots, restores and twin programs, byte comparison',
 'C03': 'lossy, duplicating, reordering network; reference gate over the delivery history, twin without the dropped messages',
 'C04': 'random batching of one delivery schedule against one-by-one delivery',
 'C05': 'normal, debug and mixed calls over one history, selections compared',
 'C06': 'reference join over the recorded history, and other interleavings of the same messages',
 'C07': 'reference arithmetic over the recorded history of skewed, lossy streams',
 'C08': 'reference routing over the recorded history, conflicting instructions injected',
 'C09': 'reference step function over the recorded history',
 'C10': 'reference windows recomputed from the whole recorded history',
 'C11': 'reference resampling grid recomputed from the whole recorded history',
 'C12': 'every edge of random graphs judged by reference operators from what was emitted upstream',
 'C13': 'pipelines and composites against their flattened twin, with restarts',
 'C14': 'interleaved neighbours that fail, die and reappear, against each program alone',
 'C15': 'random lifecycle histories with malformed definitions against a reference registry',
 'C16': 'buffering, flushing, failing batches and restarts against delivery without a buffer',
 'C17': 'crashes back to arbitrary snapshots with at-least-once redelivery, against the undisturbed run',
 'C18': 'timestamps of every emission checked under clock jumps, reordering and restarts',
 'C19': 'allocation failures injected into snapshots (every allocation), buffering and processing, restart and resend',
 'C20': 'operators and programs exported, rebuilt and continued, against the original',
 'C21': 'long simulated streams with duplicates, gaps and restarts; snapshot size monitored',
 'C24': 'overlapping client calls resumed in a random order, slow and failing engine loads, reseeded randomness; histories judged against the engine used sequentially',
 'C25': 'random editing histories and parameter values against a reference definition builder',
 'C26': 'runs that fail, are interrupted or overlap at random points, against the engine used directly; leftovers looked for',
 'C23': 'tasks of the real server, Redis commands, replies, publications, feed and client frames interleaved step by step, with stalls, disconnects, refused writes, clock steps and malformed messages; the delivery history checked against the published outputs',
 'C27': 'random histories of samples, run commands, broken programs, deleted keys, refused writes and repeated identifiers against a reference registry and the engine used directly',
 'C28': 'the debug command and its interactive view on a virtual clock, with a simulated file system, keyboard and screen; file and engine faults; the table judged against the engine used directly at every timer and key',
 'C29': 'histories of all engine properties, with their faults, on an engine compiled with memory, undefined-behaviour and library checks as invariants',
 'C30': 'rounds of one history of creations, calls, restarts, failures and deletions, repeated; memory alive after each compared',
 'C31': 'reference functions applied to each recorded input, values drawn at and next to the thresholds and points, over lossy streams with restarts',
 'C22': 'the text interface and the native engine driven by one schedule',
}
CLIENT_NOTE = ('Seeded sampling of schedules, faults, programs and inputs, no proof. Real code: the JavaScript and Python client sources, the code generator '
               'and the classes it generates, the engine. Stand-ins: emscripten and pybind11 glue, class-transformer, nanoid, prettier, the two schema-to-code '
               'libraries and the JSON-schema validator, none of which is installed.')
SERVER_NOTE = ('Seeded sampling of schedules, faults, programs and inputs, no proof. Real code: the sources of rtbot-server, the Redis module and rtbot-rs, '
               'the tokio synchronisation primitives, futures, the engine. Stand-ins: the executor and sockets (the simulator), Redis, and the crates which are not '
               'available offline (warp, tokio-tungstenite, redis, redis-module, cxx with the C++ glue, config, nanoid, jsonpath-rust, jsonschema).')
CLI_NOTE = ('Seeded sampling of programs, data, faults, keys and their moments, no proof. Real code: apps/cli/src, the JavaScript client, the engine. Stand-ins: commander, papaparse, '
            'zustand, immer, blessed (widgets that record), class-transformer, nanoid, the file system and the clock. How blessed draws is not simulated.')
checks = []
for p, t in C.items():
    note = N + {
        'C22': 'The JSON-schema validator library is not installed: a stand-in implements the draft-07 keywords the schema uses. Values that are not finite are null in JSON and compared as such.',
        'C19': 'Allocation failures are std::bad_alloc from operator new; the sweep covers every allocation (up to 400) of the snapshots it visits.',
        'C10': 'Values compared with a tolerance for floating-point rounding.', 'C11': 'Values compared with a tolerance for floating-point rounding.',
        'C07': 'Values compared with a tolerance for floating-point rounding.', 'C12': 'Values compared with a tolerance for floating-point rounding.', 'C31': 'Computed values compared with a tolerance for floating-point rounding, values let through and times exactly.',
        'C29': 'Invariants: clang AddressSanitizer, UndefinedBehaviorSanitizer (without alignment: snapshots are read at unaligned addresses, which the supported targets allow), float-cast-overflow, assertions of libstdc++.',
        'C30': 'Memory obtained with operator new; allocation failures only where no JSON is handled, because the destructors of the JSON library allocate.',
    }.get(p, 'The reference models and the simulated world are trusted.')
    if p in ('C23', 'C27'): note = SERVER_NOTE
    if p in ('C24', 'C25', 'C26'): note = CLIENT_NOTE
    if p == 'C28': note = CLI_NOTE
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': T + t, 'level': 'exploration', 'level_note': note})
na = []
json.dump({'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are the public interfaces, global operator new, and the order of calls.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
