#!/usr/bin/env python3
"""Builds what the checks share and warms the build cache. Checks rebuild whatever is missing."""
import subprocess
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

rc, out = check.sh(["go", "build", "./..."], check.REPO)
print(out[-2000:])
sys.exit(rc)
