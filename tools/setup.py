#!/usr/bin/env python3
"""Checks that the tools are there and that every module of the specification parses. Nothing has to be built."""
import glob
import os
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ok = os.path.exists('/opt/venv/bin/python')
with tempfile.TemporaryDirectory() as d:
    for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
        p = subprocess.run(['java', '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + os.path.dirname(f), '-cp', TLA, 'tla2sany.SANY', f], cwd=os.path.dirname(f), capture_output=True, text=True)
        good = p.returncode == 0 and '*** Errors' not in p.stdout
        print(os.path.basename(f), 'parsed' if good else 'REFUSED\n' + p.stdout)
        ok &= good
sys.exit(0 if ok else 1)
