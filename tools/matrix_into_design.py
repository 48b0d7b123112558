#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md between its markers."""
import pathlib, re, subprocess, sys
root = pathlib.Path(__file__).resolve().parent.parent
t = subprocess.check_output([sys.executable, str(root / "tools/matrix.py")], text=True)
d = root / "DESIGN.md"
s = d.read_text()
s = re.sub(r"<!-- matrix -->.*<!-- end matrix -->", lambda m: "<!-- matrix -->\n" + t + "<!-- end matrix -->", s, flags=re.S)
d.write_text(s)
