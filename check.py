#!/opt/venv/bin/python
"""check.py Cxx [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
vlib.run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
