#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles the tree it judges. This only verifies that the tools are there."""
import shutil, sys
miss = [t for t in ('g++', 'python3') if not shutil.which(t)]
print('missing: %s' % miss if miss else 'ok')
sys.exit(bool(miss))
