#!/usr/bin/env python3
"""Builds the harnesses of a property and prints their executables (development aid)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import run
hh = run.file_hash(run.headers())
for st in run.CHECKS[sys.argv[1]]['stages']:
    if st['harness'].endswith('.cpp'):
        print(st['harness'], run.build(st, hh))
