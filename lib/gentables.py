#!/usr/bin/env python3
"""Regenerates spec/T8Tables.tla (literal tables, for TLC's speed) from spec/T8Def.tla."""
import os, re, subprocess
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
out = subprocess.run(["tlc", "-config", "T8TablesGen.cfg", "-metadir", "/tmp/gentables", "T8TablesGen.tla"], cwd=D, capture_output=True, text=True).stdout
txt = re.sub(r"\s+", " ", out)
tabs = dict(re.findall(r'"TABLE (\w+) (.*?)"', txt))
L = ["------------------------------ MODULE T8Tables ------------------------------",
     "(* GENERATED by lib/gentables.py from T8Def; T8TablesCheck proves that they agree. *)", "EXTENDS Integers, TLC"]
for n, v in tabs.items():
    if n in ("CountTable", "BeforeTable"):
        rows = v
        L.append(f"{n}L == {v}")
        L.append(f"{n} == TLCEval([n \\in 1..31 |-> TLCEval([t \\in 0..15 |-> {n}L[n][t + 1]])])")
    else:
        hi = 7 if n in ("Dim", "RootType", "ClassRank") else 15
        L.append(f"{n} == TLCEval([t \\in 0..{hi} |-> {v}[t + 1]])")
L.append("=" * 77)
open(os.path.join(D, "T8Tables.tla"), "w").write("\n".join(L) + "\n")
print(sorted(tabs), sum(map(len, tabs.values())))
