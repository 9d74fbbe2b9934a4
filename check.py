#!/opt/venv/bin/python
"""Entry point of every check:  check.py CXX [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 + VIOLATION line: it
is broken.  Exit 2: the harness itself failed (no verdict).
"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
