#!/usr/bin/env python3
"""drive.py C24 | C25: decides the code generator's properties."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c24, c25

if __name__ == "__main__":
    what = sys.argv[1]
    sys.exit({"C24": c24.main, "C25": c25.main}[what](sys.argv[2:]))
