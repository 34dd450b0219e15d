#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--cases N] [--only I]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import check as C

if __name__ == '__main__':
    m = importlib.import_module('dst.' + sys.argv[1].lower())
    sys.stdout.reconfigure(line_buffering=True, errors='replace')
    sys.exit(C.main(m.CHECK))
