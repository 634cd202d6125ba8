#!/usr/bin/env python3
"""setup_cmd: builds the Java override and the harness (checks rebuild by themselves as needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
try:
    print(check.build())
except check.ToolError as e:
    print(e); sys.exit(2)
