#!/usr/bin/env python3
"""python run.py C04 [--tier quick|thorough] [--seed N] [--replay out/C04-0.json]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import harness
if __name__ == "__main__":
    sys.exit(harness.main())
