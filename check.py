"""Entry point: python3-vt check.py C01 [--tier quick|thorough] [--replay f]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symx.runner import cli
cli()
