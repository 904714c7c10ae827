#!/usr/bin/env python3
"""Entry point: python3-vt check.py C01 [--tier quick|thorough] | --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.stdout.reconfigure(errors="backslashreplace")
sys.stderr.reconfigure(errors="backslashreplace")
from pbt.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
