"""Compiles the Java overrides of the specification's arithmetic."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc
os.makedirs(os.path.dirname(tlc.OV), exist_ok=True)
tlc.ensure_overrides()
print('ready:', tlc.OV)
