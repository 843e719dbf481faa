#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
TECH = 'conformance of the four builds to an executable Quint specification'
NOTE = ('Every case is evaluated by the Quint definition (unbounded integers) and by the code in four builds '
        '(native/LLVM backend, debug/release); all results, flags, Nones, errors and panics must be equal. Exhaustive over the '
        'structured enumerations of driver/gen.js, seeded random beyond them; no claim for operands never generated. '
        'Trusts rustc, clang and the Quint evaluator.')
special = {
  'C14': ('also: literals compiled by rustc', NOTE + ' int!/uint! literals are also compiled: those the specification rejects must be compile errors.'),
  'C18': ('pairwise conformance of the four builds, arbitrated by the Quint specification',
          'All families of all other checks are executed by the four builds and compared with each other; the Quint definition decides which profile differences are documented. Exploration, not a proof of equivalence.'),
}
special['C24'] = ('conformance of memory-checked builds to the Quint specification: buffers of buffers.qnt model-checked at small scope, behaviours of all families and histories replayed',
          'spec/buffers.qnt models the raw buffers cell by cell and its laws show that no cell is read unwritten or accessed out of range; the behaviours of the specification (all families, and register-machine histories) '
          'are replayed on an AddressSanitizer build with run-time checks and on unoptimised native and LLVM builds under valgrind, where an undefined access ends the process instead of answering. Bounded by the replayed behaviours; '
          'undefined behaviour that leaves no memory trace (aliasing rules, for example) is not covered.')
checks = []
for p in props:
    i = p['id']
    cmd = f'node driver/check.js {i}'
    level, tech, note = 'exploration', TECH, NOTE
    if i in special:
        t, note = special[i]
        tech = TECH + ' (' + t + ')' if i == 'C14' else t
    if i == 'C19':
        cmd = 'node driver/machine.js C19'
        level = 'model_checking'
        tech = 'model-based testing: Quint state machine, simulated traces replayed on the code and recorded histories validated against the step relation'
        note = ('The register machine of spec/machine.qnt is simulated by quint run and every trace is replayed on the four builds, comparing the full state and all observations after every step; '
                'longer seeded histories are validated step by step against the same transition function. Not exhaustive.')
        if not os.path.exists(root + '/driver/machine.js'): continue
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd, evidence_file=f'evidence/{i}.json', technique=tech, level=level, level_note=note))
na = []
if not any(c['property'] == 'C19' for c in checks): na.append(dict(property='C19', reason='check under construction'))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
  notes='Checks read VERIF_SEED and VERIF_TIER. Each builds the executors it needs from /repo into .work/. No hooks: everything observable is public.'),
  open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
