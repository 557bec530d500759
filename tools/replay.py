#!/usr/bin/env python3
"""replay.py FILE [-v]: executes a replay file against /repo's current tree. exit 1: the violation happens again, identically."""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
name = [l.split()[1] for l in open(sys.argv[1]) if l.startswith("backend ")][0]
variant = [v for v in build.VARIANTS if build.VARIANTS[v]["name"] == name][0]
exe = build.build(variant)
with tempfile.TemporaryDirectory(prefix="sim", dir="/tmp") as d:
    sys.exit(subprocess.run([exe, "replay", os.path.abspath(sys.argv[1]), "--scratch", d + "/fresh"] + sys.argv[2:], cwd=d).returncode)
