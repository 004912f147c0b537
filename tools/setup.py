#!/usr/bin/env python3
"""setup_cmd: the checks need nothing prepared; this compiles the reference and runs its self-test."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
from build import build_reference
subprocess.run([build_reference(), "selftest", "5"], check=True)
