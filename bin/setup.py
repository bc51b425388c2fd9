#!/usr/bin/env python3
"""Nothing is prebuilt (every check encodes /repo's current sources itself); verify that the tools are there."""
import shutil, sys
miss = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc') if not shutil.which(t)]
print('missing: %s' % miss if miss else 'tools present')
sys.exit(1 if miss else 0)
