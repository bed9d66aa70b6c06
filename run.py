#!/usr/bin/env python3
"""run.py Cxx: runs one check (VERIF_TIER, VERIF_SEED)."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core
pid = sys.argv[1]
m = importlib.import_module('checks.' + pid)
core.main(m.check, pid, getattr(m, 'LEVEL', 'exploration'))
