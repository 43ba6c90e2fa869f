#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import engine
if __name__ == '__main__':
    sys.exit(engine.main(sys.argv[1], sys.argv[2:]))
