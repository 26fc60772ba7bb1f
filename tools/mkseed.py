#!/usr/bin/env python3
"""Authoring helper for planted bugs: makes seeded/<id>/ from a replacement in /repo and a demonstration program."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: the demonstration shows the defect
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 %s -w -I. "$here/demo.cpp" -o "$tmp/demo" || exit 98
"$tmp/demo"
'''
def seed(id, prop, edits, demo, flags, needs, breaks):
    d = '%s/seeded/%s' % (V, id); os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = R + '/experimental/bits/' + f if not f.startswith('/') else R + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
    subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.cpp', 'w').write('#include <experimental/simd>\n#include <cmath>\n#include <cstdio>\n#include <cstring>\n#include <limits>\nnamespace stdx = std::experimental;\nstatic int bad = 0;\n#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); bad = 1; } } while (0)\n' + demo)
    open(d + '/demo.sh', 'w').write(DEMO % flags)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
