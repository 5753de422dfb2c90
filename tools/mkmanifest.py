#!/usr/bin/env python3
"""writes MANIFEST.json from bin/table.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V + '/bin')
from table import T, NOT_CLAIMED
TECH = {
 'X02': 'property-based testing with injected faults: generated lines, trees and output in which functions of the caller throw at generated points, against a reference model and the identity of what was thrown, with shrinking; libFuzzer in the thorough tier',
 'fmt': 'property-based testing: generated inputs and histories against a reference formatter (exact arithmetic, C library), with shrinking; libFuzzer in the thorough tier',
 'utils': 'property-based testing: generated strings against a reference model, with shrinking; libFuzzer in the thorough tier',
 'opts': 'property-based testing: generated declarations and command lines against a reference parser, with shrinking; libFuzzer in the thorough tier',
 'ptree': 'property-based testing: generated trees rendered as YAML against the generating tree, with shrinking; libFuzzer in the thorough tier',
 'mbox': 'stateful property-based testing: generated operation histories against a reference mailbox, with shrinking; libFuzzer in the thorough tier',
 'comp': 'property-based testing over generated programs and client projects: each is compiled (and run), the compiler\'s and the program\'s verdict must be the predicted one; with shrinking',
 'thr': 'property-based testing over generated thread programs and schedules: a deterministic scheduler runs the real code; differential oracle (the same work done alone) and a data race detector; with shrinking',
 'mem': 'property-based testing: generated work, repeated, against the invariant that the live memory stays the same, with shrinking; libFuzzer in the thorough tier',
 'exc': 'property-based testing: generated names and provocations; metamorphic relation (the message for plain names, with the names replaced) and differential oracle (handlers, copies, threads), with shrinking; libFuzzer in the thorough tier',
 'all': 'property-based testing: the cases of the other harnesses, against the invariant that the state of the process is the same before and after, with shrinking; libFuzzer in the thorough tier',
 'oom': 'property-based testing with injected faults: generated work and histories in which generated allocations fail, against the same work without faults and a reference mailbox, with shrinking; libFuzzer in the thorough tier',
 'sim': 'property-based testing over generated schedules: a deterministic scheduler runs the real code, preempting at synchronisation and memory accesses; oracle over the history, with shrinking',
}
NOTE = {
 'seq': 'Searches the stated input space at random (seeded) with generators aimed at its corners, in optimised and in address/undefined-behaviour sanitised builds of the current tree; what no generated case reaches is not covered. Trusts the oracle in src/h_%s.cpp, the compiler and the C library.',
 'comp': 'Searches programs at random (seeded) with the installed g++ and clang++; each case costs a compilation, so some hundred programs per run, thousands in the thorough tier. Trusts the compilers, CMake and the prediction in src/h_comp.cpp.',
 'thr': 'Searches thread programs and schedules at random (seeded); sequentially consistent interleavings, plus a vector-clock detector for data races in the instrumented code (the library, the C++ templates it uses, common C functions, but not the inside of yaml-cpp and of the compiled parts of the C++ library). Trusts the scheduler in src/sim_rt.cpp and the work alone as the oracle.',
 'sim': 'Searches thread programs and schedules at random (seeded) with a virtual clock; sequentially consistent interleavings, plus a vector-clock detector for data races; what no generated schedule reaches is not covered. Trusts the scheduler in src/sim_rt.cpp and the oracle in src/h_sim.cpp.',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in T: continue
    h = T[i][0]
    checks.append(dict(property=i, quick_cmd='bin/check ' + i, thorough_cmd='VERIF_TIER=thorough bin/check ' + i, evidence_file='evidence/%s.json' % i,
        technique=TECH.get(i, TECH[h]), level='exploration', level_note=NOTE[h] if h in NOTE else NOTE['seq'] % h))
na = [dict(property=i, reason=NOT_CLAIMED.get(i, 'the check is not built yet')) for i in ids if i not in T]
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
    notes='No hooks in /repo. Every check builds its harness and the library from /repo in build/<property>.<pid>, which it removes at the end. VERIF_SEED selects the search; bin/check ID --replay FILE replays a case. known_findings.txt lists findings and fixes.')
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not claimed')
