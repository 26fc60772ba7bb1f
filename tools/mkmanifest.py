#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import checks
TECH = {
 'C15': 'property-based testing: generated compile-time probe programs against a constraint model',
 'C16': 'property-based testing: generated programs compiled at several optimization levels, with constant and opaque operands, differential',
 'C17': 'stateful property-based testing: random operation histories against a scalar model, with shrinking',
 'C18': 'property-based testing: divisions on random lanes and padding, floating-point exceptions and trap signals compared with the scalar reference',
 'C21': 'property-based testing: the code generated for ARM and POWER, retargeted at LLVM IR level, executed on generated inputs against scalar oracles',
 'C22': 'property-based testing: the generator catalogue under alternative configurations (fallback without SIMD, SSE1, language standards, optimization levels, fast-math, debug, library options)',
 'C23': 'property-based testing: install.sh on generated header trees and compilers in a contained scratch directory',
}
NOTE = ('Explores generated inputs only; trusts the compiler for the scalar oracle code, libm/MPFR-style long double references where stated in DESIGN.md, and the host CPU. '
        'x86 levels SSE2..AVX-512 are executed; what the host cannot run is skipped.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[], notes='Generated by tools/mkmanifest.py. Known findings: known_findings.json.')
for i in ids:
    if i in checks.CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'property-based testing: structured random lanes against a scalar reference model, with shrinking'),
            level='exploration', level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason='check under construction; not claimed'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed;', len(m['not_applicable']), 'not claimed')
