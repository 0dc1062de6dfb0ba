#!/usr/bin/env python3
"""Setup: nothing has to be prebuilt; make sure that the tools and the output folders are there."""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
missing = [t for t in ('g++', 'python3') if not shutil.which(t)]
sys.exit('missing: %s' % missing if missing else 0)
