#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the compiler IR (affine-index memory x value terms, polyhedral cells, trace partitioning, loop summarisation)'
TRUST = 'Trusts clang-18 lowering to IR, the abstract interpreter in engine/ (no solver, no execution of the analysed code) and real-number semantics of double arithmetic (rounding is out of scope). '
import sys; sys.path.insert(0, os.path.join(ROOT, 'tools'))
from claims import CLAIMS, NA
checks = []
for pid, (tech, note) in CLAIMS.items():
    checks.append(dict(property=pid, quick_cmd=f'bash checks/run.sh {pid}', thorough_cmd=f'VERIF_TIER=thorough bash checks/run.sh {pid}',
                       technique=tech.replace('@AI', AI), level='other', level_note=note.replace('@TRUST', TRUST)))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
na = [dict(property=p, reason=NA.get(p, 'No sound static decision implemented yet.')) for p in props if p not in CLAIMS]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='Every check compiles a small driver against the current headers of /repo to LLVM IR, exports it with build/irx and decides the property on the IR; nothing of /repo is executed. No hooks are used in /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
