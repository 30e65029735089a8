#!/usr/bin/env python3
"""Checks that what the checks need is installed; every check builds from /repo's tree by itself."""
import shutil, sys
missing = [t for t in ('g++', 'gdb', 'strace', 'cmake') if not shutil.which(t)]
print('missing: ' + ', '.join(missing) if missing else 'all tools are there')
sys.exit(1 if 'g++' in missing else 0)
