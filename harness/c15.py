import copy
import warnings

import numpy as np

import core

ID = "C15"
LEVEL = "model_checking"
MODELS = [("MCSpecies", "MCSpecies.cfg")]
TRACE = "TraceSpecies"
RULE = "atoms with random names, species or types; non-trivial when some name contains a symbol among other characters"
ASSUMPTIONS = [
    "names are ASCII text",
    "a name with several two-letter symbols may stand for the first in the table or the first in the name; one with only several one-letter symbols for any of them",
]

SYM = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og".split()
JUNK = ["1", "2", "11", "_", "-", " ", "x", "X", "q", "J", "z", "+", "@", "#", "", "", ".", "%^", "A", "l", "e"]


def name(rng):
    m = rng.random()
    if m < 0.15:
        return "".join(rng.choice(JUNK) for _ in range(rng.randint(0, 4)))
    if m < 0.6:
        s = rng.choice(SYM)
        s = rng.choice([s, s, s.lower(), s.upper(), s.swapcase()])
        return rng.choice(["", "", rng.choice(JUNK)]) + s + rng.choice(["", "1", "12", rng.choice(JUNK)])
    if m < 0.8:
        return "".join(rng.choice(SYM) + rng.choice(["", "1"]) for _ in range(rng.randint(2, 3)))
    return "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123_") for _ in range(rng.randint(1, 4)))


def cases(ctx):
    rng = ctx.rng
    out = [dict(names=[s, s.lower(), s.upper()], species=None, types=None, first="names") for s in SYM]
    for _ in range(ctx.pick(4000, 40000)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 8])
        pool = [name(rng) for _ in range(rng.choice([1, 2, 3]))]
        names = [rng.choice(pool) if rng.random() < 0.7 else name(rng) for _ in range(n)]
        if n and rng.random() < 0.3:  # same species with different labels, unknown names repeated
            s = rng.choice(SYM)
            names = [rng.choice([s + "1", s + "2", s.lower(), s, "J1", "q", "J1", "j1", "Q", " q", "q "]) for _ in range(n)]
        species = [rng.choice(["X", "H", "He", "Cr", "C", rng.choice(SYM)]) for _ in range(n)]
        k = rng.choice([1, 2, 3])
        types = [rng.choice([1, 2, 3, 7, 50, 2**20]) for _ in range(n)] if k > 1 else [rng.choice([5, 9]) for _ in range(n)]
        use = rng.choice(["n", "n", "s", "t", "ns", "nt", "st", "nst", ""])
        out.append(dict(names=names, species=species if "s" in use else None, types=types if "t" in use else None,
                        first="types" if "t" in use else "species" if "s" in use else "names" if "n" in use else "none",
                        order=rng.choice([0, 1]), extra=rng.random() < 0.3, form=rng.choice(["list", "list", "tuple", "array"])))
    return out


def execute(case):
    w = core.wulfric()
    names = []
    for s in case["names"]:
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            v, e = core.call(w.crystal.get_atom_species, s)
            warned = any(issubclass(x.category, RuntimeWarning) for x in got)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v2, e2 = core.call(w.crystal.get_atom_species, s, raise_on_fail=True)
        names.append(dict(chars=list(s), species=str(v), exc=core.exc_name(e), warned=warned,
                          strict=str(v2), strictexc=core.exc_name(e2)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lst, e = core.call(w.crystal.get_atoms_species, dict(names=list(case["names"])))
        lst = [str(v) for v in lst] if e is None else ["!" + core.exc_name(e)]
        sl, e = core.call(w.crystal.get_atoms_species, dict(names=tuple(case["names"])), raise_on_fail=True)
        slist = [str(v) for v in sl] if e is None else ["!" + core.exc_name(e)]
        atoms = {}
        if case["first"] != "none" and (case["first"] == "names" or case.get("order") is not None):
            atoms["names"] = list(case["names"])
        if case["species"] is not None:
            atoms["species"] = list(case["species"])
        if case["types"] is not None:
            atoms["spglib_types"] = list(case["types"])
        form = case.get("form")
        for k in atoms:
            if form == "tuple" or form == "array" and k == "spglib_types":
                atoms[k] = tuple(atoms[k])
            elif form == "array":
                atoms[k] = np.array(atoms[k], dtype=object if not atoms[k] else None)
        if case.get("order"):
            atoms = dict(reversed(list(atoms.items())))
        if case.get("extra") or case["first"] == "none":
            atoms["charge"] = [0.5] * len(case["names"])
        ref = copy.deepcopy(atoms)
        t, e = core.call(w.get_spglib_types, atoms)
        types, again = [], False
        if e is None:
            try:
                types = [int(v) for v in t]
                a2, e2 = core.call(w.get_spglib_types, dict(spglib_types=t))
                again = e2 is None and [int(v) for v in a2] == types
            except Exception:
                types = [-1]
    ids = dict(types=case["types"], species=case["species"], names=case["names"], none=[])[case["first"]]
    return dict(names=names, list=lst, slist=slist, first=case["first"], ids=ids, given=case["types"] or [],
                types=types, exc=core.exc_name(e), again=again, kept=all(type(atoms[k]) is type(ref[k]) and list(atoms[k]) == list(ref[k]) for k in ref) and list(atoms) == list(ref))


def nontrivial(r):
    return any(len(o["chars"]) > 2 and o["species"] != "X" for o in r["names"])
