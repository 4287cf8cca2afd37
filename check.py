#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [-v] [-j SUBSTR]   |   check.py --replay FILE"""
import os, sys
VT = '/opt/veriftools/pyvenv/bin/python3'
if sys.prefix == sys.base_prefix and os.path.exists(VT) and not os.environ.get('VSYM_VENV'):
    os.environ['VSYM_VENV'] = '1'
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vf'))
import registry
sys.exit(registry.main(sys.argv[1:]))
