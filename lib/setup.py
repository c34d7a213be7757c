#!/usr/bin/env python3
"""setup_cmd: nothing persistent is needed (each check builds from /repo); check the tools are there."""
import shutil, sys
missing = [t for t in ('g++', 'ninja', 'mpic++', 'python3') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ' '.join(missing))
print('ok')
