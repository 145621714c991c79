#!/usr/bin/env python3
"""Nothing to build: verifies that the tools the checks need are present."""
import shutil
import sys
miss = [t for t in ('clang++', 'c++filt', 'python3') if not shutil.which(t)]
print('missing: %s' % ', '.join(miss) if miss else 'ok')
sys.exit(1 if miss else 0)
