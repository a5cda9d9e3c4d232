#!/usr/bin/env python3
"""Warms the go build cache: compiles the check binaries once (nothing is kept)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
e = dict(os.environ, VERIF_BUILD_ONLY="1")
sys.exit(subprocess.call([sys.executable, os.path.join(HERE, "check.py"), "C16", "quick"], env=e))
