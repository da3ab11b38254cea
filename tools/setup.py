#!/usr/bin/env python3
"""Build the executor and the harness (what every check does itself when they are missing or stale)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
print(f"built in {check.build():.1f} s")
