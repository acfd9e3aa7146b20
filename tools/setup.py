"""Builds the solver shared library (idempotent)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import sat
print('built', sat.build() if hasattr(sat, 'build') else sat)
