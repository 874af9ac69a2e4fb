#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds what it needs from /repo. This only
verifies that the tools the checks use are present."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'make', 'gawk') if not shutil.which(t)]
if missing:
    print('missing tools: %s' % missing); sys.exit(1)
import ctypes
try:
    ctypes.CDLL('libmpfr.so.6')
except OSError:
    print('missing libmpfr.so.6'); sys.exit(1)
sys.path.insert(0, '/verif')
import registry
print('%d checks' % len(registry.CHECKS))
