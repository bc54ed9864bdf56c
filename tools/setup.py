#!/usr/bin/env python3
"""nothing to prepare: every check generates and compiles what it needs from /repo; this only confirms the tools are there"""
import shutil, sys
miss = [t for t in ('verus', 'clang++', 'g++') if not shutil.which(t)]
print('missing: ' + ', '.join(miss) if miss else 'tools present')
sys.exit(1 if miss else 0)
