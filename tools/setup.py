#!/usr/bin/env python3
"""Nothing to build in advance: the checks compile /repo's sources when they run. Only looks whether the tools are there."""
import shutil, sys
missing = [t for t in ('clang++', 'opt', 'cbmc', 'c++filt', 'prlimit') if not shutil.which(t)]
print('missing: ' + ', '.join(missing) if missing else 'tools present')
sys.exit(1 if missing else 0)
