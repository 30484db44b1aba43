#!/usr/bin/env python3
"""Nothing is needed in advance: each check builds what it needs.  This only verifies the toolchain."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'python3') if not shutil.which(t)]
print('missing: ' + ' '.join(missing) if missing else 'toolchain present'); sys.exit(bool(missing))
