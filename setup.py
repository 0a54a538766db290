#!/usr/bin/env python3
"""Checks that the tools the checks need are here; every check builds for itself."""
import shutil, sys
missing = [t for t in ('gcc', 'make', 'gperf', 'ar', 'ld', 'objcopy', 'sed', 'perl') if not shutil.which(t)]
if missing:
    print('missing tools: ' + ' '.join(missing))
    sys.exit(1)
print('ready')
