#!/usr/bin/env python3
"""Checks that the tools are there and pre-builds the harness programs (a cache; every check can also build alone)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('g++', 'clang++'):
    if subprocess.run([t, '--version'], stdout=subprocess.DEVNULL).returncode:
        sys.exit('missing ' + t)
for p in json.load(open(os.path.join(V, 'checks.json'))):
    r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), p, '--build-only'])
    if r.returncode:
        sys.exit('cannot build ' + p)
print('setup ok')
