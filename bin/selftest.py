#!/usr/bin/env python3
"""Setup: verify that the tools the checks need are present.  Every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'objcopy') if not shutil.which(t)]
if missing:
    print('missing: ' + ' '.join(missing))
    sys.exit(1)
print('ok')
