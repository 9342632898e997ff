#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--case SUBSTRING] [-v]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import argparse
import symx
from symx import runner

a = argparse.ArgumentParser()
a.add_argument('prop')
a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
a.add_argument('--case')
a.add_argument('-j', type=int)
a.add_argument('-v', action='store_true')
o = a.parse_args()
os.environ.update(runner.env())
sys.exit(runner.main(o.prop, o.tier, o.case, o.j, o.v))
