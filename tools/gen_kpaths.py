#!/usr/bin/env python3
"""One-time transcription of the tables of k-paths (see gen_ktables.py)."""
import sys
sys.path.insert(0, "/repo/src")
from wulfric.constants import HPKOT_DEFAULT_K_PATHS as H, SC_DEFAULT_K_PATHS as S
print("PathOf(v) ==")
for i, (k, p) in enumerate(list(H.items()) + list(S.items())):
    l = "<<" + ", ".join("<<" + ", ".join(f'"{x}"' for x in s.split("-")) + ">>" for s in p.split("|")) + ">>"
    print(("  CASE " if i == 0 else "    [] ") + f'v = "{k}" -> {l}')
