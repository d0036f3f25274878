#!/usr/bin/env python3
"""Sanity check of the installed tools; the checks themselves need no preparation."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('work', 'evidence'):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', 'SimdTrace.tla'], cwd=os.path.join(ROOT, 'spec'),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = p.returncode != 0 or 'Error' in p.stdout
print(p.stdout[-500:] if bad else 'specification parses')
sys.exit(1 if bad else 0)
