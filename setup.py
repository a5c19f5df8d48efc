#!/usr/bin/env python3
"""Builds the framework from the committed files (every check builds what it needs again if this is missing)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness
ok, log = harness.build()
print(log if not ok else 'replay harness built')
try:
    from lib import vstage
    from lib import conform
    print(conform.build()[1])
    print('extractor built' if vstage.build_extractor() else 'extractor NOT built')
except ImportError:
    pass
sys.exit(0 if ok else 1)
