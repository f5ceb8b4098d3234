#!/usr/bin/env python3
"""Builds the TLC override and the harness (every check does this again for itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import build, ToolError
try:
    build()
except ToolError as e:
    print(e)
    sys.exit(2)
