#!/opt/veriftools/pyvenv/bin/python3
"""Warms the build caches (exporter, precompiled header, exported sources).  Checks do the same themselves if needed."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
from gv import frontend
P = frontend.load_program()
print('%d functions exported from %d files' % (len(P.functions), len(P.files)))
