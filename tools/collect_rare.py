"""Collects base crystals of every (HPKOT symbol, SC variation, inversion): see harness/rare.json.

usage: collect_rare.py SEED SECONDS OUT      (library: WULFRIC_REPO or /repo)
"""

import json
import os
import random
import sys
import time
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import core
import crys

warnings.simplefilter("ignore")
w = core.wulfric()
from wulfric.constants._space_groups import INVERSION_SYMMETRY  # noqa: E402

rng = random.Random(int(sys.argv[1]))
end = time.time() + float(sys.argv[2])
found = {}
SMALL = [(1, 3, 1), (1, 3, 2), (1, 4, 2), (1, 5, 2), (2, 6, 3), (1, 6, 4)]
while time.time() < end:
    lt = rng.choice([None, None, "mC", "mC", "oF", "aP", "oF", "oI", "cF", "cP"])
    try:
        x = crys.base(rng, lt=lt, max_atoms=12, style=rng.choice(SMALL))
    except core.MachineryError:
        continue
    d = dict(cellg=x.get("cellg", [[crys.N, 0, 0], [0, crys.N, 0], [0, 0, crys.N]]), pts=x["pts"], types=x["types"])
    _, cell, atoms = crys.realise(x, d)
    data, e = core.call(w.get_spglib_data, cell, atoms)
    if e is not None:
        continue
    s, e1 = core.call(w.crystal.hpkot_get_extended_bl_symbol, cell, atoms, spglib_data=data)
    v, e2 = core.call(w.crystal.sc_get_variation, cell, atoms, spglib_data=data)
    key = f"{core.exc_name(e1) or s} {core.exc_name(e2) or v} {int(INVERSION_SYMMETRY[data.space_group_number])}"
    L = found.setdefault(key, [])
    if len(L) < 40:
        L.append(x)
    else:
        L[rng.randrange(40)] = x
json.dump(found, open(sys.argv[3], "w"))
