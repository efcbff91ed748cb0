#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROP [--thorough] [--nobuild]: decide one property on /repo's current source."""
import sys, os, time, json, random, subprocess, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mirv.checker import main
sys.exit(main(sys.argv[1:], HERE))
