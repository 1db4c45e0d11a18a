"""Rewrite the table of harnesses in DESIGN.md."""
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import runner

SHORT = {"C12": ("one obligation group per syntax node class, "
                 "sequences_compose, whole_functions_*, "
                 "reported_functions_are_refused", None)}
rows = []
for i in range(1, 25):
    p = f"C{i:02d}"
    ss = runner.load(p)
    u = ", ".join(s.name for s in ss if not s.bound)
    b = ", ".join(s.name for s in ss if s.bound)
    u, b = SHORT[p][0] if p in SHORT else u, b
    rows.append(f"| {p} | {u} | {b} |\n")
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(\| \| harnesses \(U\).*?\n\|-\|-\|-\|\n)(\| C\d\d \|.*\n)+",
           lambda m: m[1] + "".join(rows), s)
open(f, "w").write(s)
