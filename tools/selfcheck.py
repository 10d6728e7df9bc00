#!/opt/veriftools/pyvenv/bin/python
"""setup: nothing is built ahead of time (every check compiles /repo's current sources itself); this only confirms the tools are there"""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vf import props, prog
assert shutil.which('clang-18') and shutil.which('clang++-18') and os.path.exists(prog.OPT)
print('z3', z3.get_version_string(), '-', len(props.allspecs()), 'contracts')
