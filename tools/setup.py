#!/usr/bin/env python3
"""Builds the compiler driver and warms the fact cache (checks also do this themselves when needed)."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import build
for k in ('rt', 'gen'):
    try: print(k, build.facts(k))
    except build.BuildError as e: print(k, 'not built:', e.stage)
