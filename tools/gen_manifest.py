#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below and the checks that exist."""
import json, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import checks
BIND = 'The explored transitions are executions of the real code; reference models are independent and validated against hashlib. Bounds are in DESIGN.md.'
N = {
 'C01': ('bounded exhaustive enumeration of messages, real code against independent reference models', 'Every message of the enumerated families is executed; data dependence on bytes beyond position/value pairs is not enumerated.'),
 'C02': ('explicit-state exploration of update-split graphs of the real objects', 'All pieces from all fill levels within two blocks (three in thorough), both overloads; later blocks are covered by the state graph closing on the fill level.'),
 'C03': ('exhaustive enumeration of constructions run in lock step with a reference model', 'Seeds from enumerated families (every length, every single byte, every single bit, structured integers); separation is decided on probe fingerprints.'),
 'C04': ('breadth-first explicit-state exploration of update/result histories against a model', 'All histories over the operation alphabet to the stated depth, states merged on object bytes.'),
 'C05': ('exhaustive enumeration of key and message length grids against an RFC 2104 model', 'All key lengths x message lengths within bounds.'),
 'C06': ('enumeration of operation sequences inside the compiler\'s constant evaluator, each replayed at run time and on the model', 'Constant evaluators of g++ and clang are trusted to diagnose non-constant operations.'),
 'C07': ('exhaustive enumeration of scalar values against a value-representation model', '8/16-bit types exhaustively, wider ones over all byte/position values (all 2^32 floats in thorough).'),
 'C08': ('enumeration of all small element sequences in every container kind, iterator category and construction history against a message model', 'Sequence lengths and element alphabets bounded.'),
 'C09': ('exhaustive enumeration of nested value universes; every pair checked through the injectivity of the recorded message', 'Universe sizes bounded.'),
 'C10': ('exhaustive enumeration of content-free values with an update-counting algorithm', ''),
 'C11': ('exhaustive enumeration of multisets, permutations and container histories against a message model', 'Sizes bounded.'),
 'C12': ('exhaustive comparison of the raw-bytes path with the elementwise path over types, positions and lengths', ''),
 'C13': ('enumeration of user-defined types and values against a compositional message model', 'Types are fixed families.'),
 'C14': ('exhaustive enumeration of result values and their images', '8/16/32-bit results exhaustively; 64-bit by multiplication structure over enumerated families.'),
 'C15': ('enumeration of digests and buffer sizes against a model', ''),
 'C16': ('differential enumeration over all XOR differences of message bytes at every position and length', ''),
 'C17': ('exhaustive enumeration of operation sequences under address/undefined/memory sanitizers as monitors', 'Sanitizers decide what is undefined behaviour.'),
 'C18': ('exhaustive interleaving exploration of operations and of memory accesses under a controlled scheduler', 'Two or three objects/threads, stated preemption bounds.'),
 'C19': ('the enumerated message and value families executed under every available compiler configuration and compared', 'Configurations: g++/clang++, C++11 to newest, optimization levels, 32-bit, big-endian constant evaluation.'),
 'C20': ('enumeration of algorithms x states x values, real append compared with update of the modelled message', ''),
 'C21': ('exploration of length-counter boundary states by real long messages', 'Lengths around 2^29, 2^32 (bytes) and, on real 32-bit code, 2^32.'),
 'C22': ('the explorations of C01-C04, C16-C18, C20 and C21 run on the legacy algorithms against models of the published references', 'Lengths, splits, seeds and histories bounded as for the other algorithms; two recorded findings on byte-sequence seeding.'),
 'C23': ('systematic fault injection: every numbered user operation of every enumerated append throws in turn', 'Four kinds of exception (all steps for one, the first 40 for the others in quick), bounded universes of values.'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -c "import checks"', 'checks': [], 'not_applicable': []}
for p in props:
    if p in checks.CHECKS:
        t, n = N[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'model_checking', 'level_note': (BIND + ' ' + n).strip()})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1); print(len(m['checks']), 'checks')
