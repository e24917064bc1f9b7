#!/usr/bin/env python3
"""Replays a violation file exactly: replay.py FILE [--trace]. Exit 1 if the violation shows, 0 if it does not."""
import os, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build as B
f = sys.argv[1]
variant = 'asan'
for line in open(f, errors='replace'):
    if line.startswith('variant '):
        variant = line.split()[1]
exe, _ = B.build(variant)
env = dict(os.environ, ASAN_OPTIONS='symbolize=1')
r = subprocess.run([exe, 'replay', '--file', f] + (['--trace', '1'] if '--trace' in sys.argv else []), env=env)
sys.exit({0: 0, 3: 1}.get(r.returncode, 2))
