#!/usr/bin/env python3
"""Replaces the table of planted changes in DESIGN.md by the output of mkmatrix.py."""
import re, subprocess, sys, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = subprocess.run([sys.executable, d + "/tools/mkmatrix.py"], capture_output=True, text=True, check=True).stdout
s = open(d + "/DESIGN.md").read()
i = s.index("| Planted change | Caught by")
m = re.compile(r"(?:\|[^\n]*\n)+").match(s, i)
open(d + "/DESIGN.md", "w").write(s[:i] + t.rstrip("\n") + "\n" + s[m.end():])
