#!/usr/bin/env python3
"""Checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
from core import *
build()
from tlc import tlc
r = tlc("Join", constants={"MaxPos": "2", "Lists": "2", "ExtraCalls": "1", "StopAtEqual": "TRUE", "NeedAll": "TRUE"})
print("setup ok:", r.ok)
sys.exit(0 if r.ok else 1)
