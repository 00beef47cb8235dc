"""Shared driver of the crystal properties (C01-C08).

Base crystals (random settings, metrics, orbits) and scripts of re-descriptions
are drawn here; TLC executes the scripts on the Describe state machine
(GenDescribe) and emits the descriptions that are handed to the real code.
Observations are put back on the integer grid of the crystal.
"""

import json
import os

import numpy as np

import core
import xtal

N = xtal.N

TYPES = ["cP", "cF", "cI", "tP", "tI", "oP", "oF", "oI", "oA", "oC", "hP", "hR", "mP", "mC", "aP"]
# how often each lattice type is drawn (many variations -> more often)
WEIGHT = dict(cP=1, cF=1, cI=1, tP=1, tI=2, oP=2, oF=3, oI=3, oA=2, oC=2, hP=2, hR=3, mP=2, mC=6, aP=4)
# space groups in which rare variations can occur
BOOST = {149: 2, 151: 3, 153: 3, 157: 3, 160: 2, 161: 2, 42: 4, 43: 4, 46: 6, 72: 4, 74: 6, 196: 8, 202: 8, 203: 8, 38: 2, 40: 2, 21: 3, 35: 3}
STYLES = [(1, 3, 1), (2, 9, 2), (2, 9, 2), (3, 14, 2), (2, 6, 5), (1, 12, 1)]

_BY = None


def hall_by_type():
    """Lattice type -> Hall numbers (from the international symbol of spglib)."""
    global _BY
    if _BY is None:
        import spglib

        fam = lambda n: "a" if n <= 2 else "m" if n <= 15 else "o" if n <= 74 else "t" if n <= 142 else "h" if n <= 194 else "c"
        _BY = {t: {} for t in TYPES}
        # centring letter of the standard setting (choice 1 comes first)
        std = {}
        for h in range(1, 531):
            t = spglib.get_spacegroup_type(h)
            std.setdefault(t.number, t.international_short[0])
        for h in range(1, 531):
            n = spglib.get_spacegroup_type(h).number
            c = std[n]
            f = fam(n)
            _BY[f + c].setdefault(n, []).append(h)
    return _BY


def hnf(rows):
    """Basis of the integer lattice generated by rows (row-style Hermite form)."""
    rows = [list(map(int, r)) for r in rows]
    out = []
    for c in range(3):
        while True:
            nz = [r for r in rows if r[c] != 0]
            if len(nz) <= 1:
                break
            piv = min(nz, key=lambda r: abs(r[c]))
            for r in rows:
                if r is not piv and r[c] != 0:
                    f = r[c] // piv[c]
                    for k in range(3):
                        r[k] -= f * piv[k]
        piv = next(r for r in rows if r[c] != 0)
        rows = [r for r in rows if r is not piv]
        if piv[c] < 0:
            piv = [-v for v in piv]
        out.append(piv)
    return out


def to_primitive(x):
    """The same crystal on the primitive lattice of its setting."""
    rots, trs, _ = xtal.hall_ops(x["h"])
    I = np.eye(3, dtype=int)
    gen = [[int(v) for v in t] for r, t in zip(rots, trs) if (r == I).all()]
    B = np.array(hnf([[N, 0, 0], [0, N, 0], [0, 0, N]] + gen))
    seen, pts, types = set(), [], []
    for p, t in zip(x["pts"], x["types"]):
        q = tuple(int(v) for v in xtal.wrap(np.array(p), B))
        if q not in seen:
            seen.add(q)
            pts.append(list(q))
            types.append(t)
    return dict(x, cellg=[[int(v) for v in r] for r in B], pts=pts, types=types)


def base(rng, lt=None, max_atoms=24, style=None):
    """A random crystal of lattice type lt (of its setting)."""
    by = hall_by_type()
    for _ in range(1000):
        t = lt or rng.choices(TYPES, [WEIGHT[k] for k in TYPES])[0]
        sgs = sorted(by[t])
        sg = rng.choices(sgs, [BOOST.get(k, 1) for k in sgs])[0]
        h = rng.choice(by[t][sg])
        lo, hi, sk = rng.choice(STYLES)
        if style not in (None, "tie"):
            lo, hi, sk = style
        prim = t[1] != "P" and rng.random() < 0.6
        mult = dict(F=4, R=3).get(t[1], 2) if prim else 1
        old = xtal.gram
        try:
            near = style == "tie" or style is None and rng.random() < 0.2
            if near:  # lengths and angles that are nearly, not quite, equal
                k = rng.choice([30, 100, 300, 500])
                tie = style == "tie" or rng.random() < 0.5  # all lengths of the setting are close
                lo3, sk3 = (1, 0) if tie else (3, 1)
                xtal.gram = lambda r, rots: k * old(r, rots, 1, lo3, sk3) + old(r, rots, 1, 3, 1)
            else:
                xtal.gram = lambda r, rots, lo=lo, hi=hi, sk=sk: old(r, rots, lo, hi, sk)
            n_orb = rng.choice([1, 1, 2, 2, 3])
            x = xtal.make(rng, h=h, max_atoms=max_atoms * mult, n_orb=n_orb)
        finally:
            xtal.gram = old
        if x is None or max(max(r) for r in x["gram"]) > 1500:
            continue
        if prim:
            x = to_primitive(x)
        if len(x["pts"]) <= max_atoms:
            if near:
                x["near"] = True
            # units and sparse cells: the decisions are about ratios of lengths
            x["scale"] *= rng.choice([1, 1, 1, 1, 1, 1, 0.2, 3, 8])
            # cells of whole numbers
            L = np.linalg.cholesky(np.array(x["gram"], dtype=float))
            if np.abs(L - np.rint(L)).max() < 1e-9 and rng.random() < 0.4:
                x["scale"] = float(max(1, np.ceil(x["scale"])))
                x["ints"] = True
            return x
    raise core.MachineryError("no base crystal")


def script(rng, natoms, left=0.25):
    """Seeded choice of Describe actions."""
    out = []
    k = natoms
    for _ in range(rng.choice([0, 1, 2, 3, 5, 7])):
        r = rng.random()
        if r < 0.45:
            i, j = rng.sample([1, 2, 3], 2)
            out.append(dict(a="AddRow", i=i, j=j, s=rng.choice([-1, 1])))
        elif r < 0.55:
            i, j = rng.sample([1, 2, 3], 2)
            out.append(dict(a="SwapRows", i=i, j=j))
        elif r < 0.62:
            out.append(dict(a="NegRow", i=rng.choice([1, 2, 3])))
        elif r < 0.72 and k <= 12:
            out.append(dict(a="Double", i=rng.choice([1, 2, 3])))
            k *= 2
        elif r < 0.85:
            out.append(
                dict(a="MoveAtom", i=rng.randint(1, k), v=[rng.randint(-2, 2) for _ in range(3)])
            )
        elif r < 0.93:
            out.append(dict(a="SwapAtoms", i=rng.randint(1, k), j=rng.randint(1, k)))
        else:
            out.append(dict(a="ShiftOrigin", v=[rng.randint(-12, 12) for _ in range(3)]))
    return out


def descriptions(ctx, bases, per=1, scripts=None):
    """TLC executes the scripts; returns per base a list of descriptions."""
    path = os.path.join(ctx.scratch, f"scripts_{len(ctx.models)}.ndjson")
    owner = []
    with open(path, "w") as f:
        for b, x in enumerate(bases):
            for p in range(per):
                s = script(ctx.rng, len(x["pts"])) if scripts is None else scripts[b][p]
                f.write(
                    json.dumps(
                        dict(
                            cell=x.get("cellg", [[N, 0, 0], [0, N, 0], [0, 0, N]]),
                            at=[[q, t] for q, t in zip(x["pts"], x["types"])],
                            script=s,
                        )
                    )
                    + "\n"
                )
                owner.append(b)
    got = ctx.generate("GenDescribe", "GenDescribe.cfg", env={"SCRIPTS": path})
    res = [[] for _ in bases]
    seen = {g["k"]: g for g in got}
    if len(seen) != len(owner):
        raise core.MachineryError(f"GenDescribe emitted {len(seen)} of {len(owner)}")
    for k in sorted(seen):
        g = seen[k]
        d = dict(
            cellg=g["cell"],
            pts=[a[0] for a in g["at"]],
            types=[a[1] for a in g["at"]],
        )
        if ctx.rng.random() < 0.25:  # positions as read from a file with few digits
            d["noise"] = [ctx.rng.choice([1e-10, 1e-8, 1e-7, 3e-7]), ctx.rng.randrange(10**6)]
        x = bases[owner[k - 1]]
        if ctx.rng.random() < 0.3 and not x.get("near"):  # the user chooses the tolerances of spglib
            # well below the distances between the atoms
            dmin = xtal.min_distance(xtal.base_cell(x), x["pts"])
            # and below the resolution of the border of two variations
            top = min(dmin / 20, 1e-3 * np.linalg.norm(xtal.base_cell(x), axis=1).min())
            tols = [t for t in (1e-6, 1e-4, 1e-3, 1e-2, 1e-1) if t <= top]
            d["tol"] = [ctx.rng.choice(tols), ctx.rng.choice([-1, -1, 0.02, 0.5])]
            if d["tol"][0] < 1e-5:
                d.pop("noise", None)
            if d["tol"][0] >= 1e-3 and ctx.rng.random() < 0.5:
                d["noise"] = [d["tol"][0] * 1e-3, ctx.rng.randrange(10**6)]
        d["form"] = ctx.rng.choice(["array", "array", "array", "list", "tuple"])
        if x.get("ints") and ctx.rng.random() < 0.8:
            d["form"] = ctx.rng.choice(["int array", "int list"])
            d.pop("noise", None)
        elif ctx.rng.random() < 0.7:
            d["rot"] = [[float(v) for v in r] for r in xtal.random_rotation(ctx.rng)]
        res[owner[k - 1]].append(d)
    return res


_RARE = None


def rare(rng, max_atoms=24):
    """A crystal of the table that has every (symbol, variation, inversion)."""
    global _RARE
    if _RARE is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rare.json")) as f:
            _RARE = json.load(f)
    keys = sorted(_RARE)
    for _ in range(1000):
        # without a variation (documented refusals): less often
        k = rng.choices(keys, [1 if "Error" in q else 4 for q in keys])[0]
        fit = [x for x in _RARE[k] if len(x["pts"]) <= max_atoms]
        if fit:
            x = dict(rng.choice(fit))
            if not x.get("ints"):
                x["scale"] *= rng.choice([1, 1, 0.7, 1.9])
            return x
    raise core.MachineryError("no rare crystal")


def make_cases(ctx, n, per=1, lt=None, max_atoms=24, style=None):
    bases = [
        rare(ctx.rng, max_atoms)
        if lt is None and ctx.rng.random() < 0.35
        else base(ctx.rng, lt=lt, max_atoms=max_atoms, style=style)
        for _ in range(n)
    ]
    ds = descriptions(ctx, bases, per)
    return [dict(x=x, d=d) for x, d in zip(bases, ds)]


# -------------------------------------------------------------------------
# observations of the real code
# -------------------------------------------------------------------------
def realise(x, d):
    """(A0, cell, atoms) handed to wulfric."""
    A0, cell, pos = xtal.cartesian(x, d)
    if d.get("noise"):  # far below the tolerance of spglib
        g = np.random.default_rng(d["noise"][1])
        amp = min(d["noise"][0], 1e-5 * np.linalg.norm(A0, axis=1).min())
        pos = pos + g.uniform(-1, 1, pos.shape) * amp @ np.linalg.inv(cell)
    return A0, cell, dict(positions=pos, spglib_types=[int(t) for t in d["types"]])


def reference(cell, atoms, symprec=1e-5, angle=-1):
    """(space group, standardised lattice, types, primitive types) of spglib."""
    import spglib

    c = (cell, atoms["positions"], atoms["spglib_types"])
    d = spglib.get_symmetry_dataset(c, symprec=symprec, angle_tolerance=angle)
    p = spglib.find_primitive(c, symprec=symprec, angle_tolerance=angle)
    if d is None or p is None:
        return None
    return (
        int(d.number),
        np.array(d.std_lattice) @ np.array(d.std_rotation_matrix),
        sorted(int(t) for t in d.std_types),
        np.array(p[0]) @ np.array(d.std_rotation_matrix),
        sorted(int(t) for t in p[2]),
    )


def same_reference(a, b, eps):
    return (
        a is not None
        and b is not None
        and a[0] == b[0]
        and a[2] == b[2]
        and a[4] == b[4]
        and np.abs(a[1] - b[1]).max() < eps
        and np.abs(a[3] - b[3]).max() < eps
    )


def tolerance(x, d, cell, atoms):
    """(atoms to use, tolerances to pass or None): tolerances are passed only when
    spglib, called with them, finds the very crystal that was generated."""
    if "tol" not in d:
        return atoms, None
    exact = realise(x, {k: v for k, v in d.items() if k not in ("tol", "noise")})[2]
    small = exact if d.get("noise", [0])[0] > 1e-6 else atoms
    ref = reference(cell, exact)
    symprec, angle = d["tol"]
    if ref is None:
        return small, None
    if angle != -1:
        # tolerance of angles: the decisions of the conventions need them off the border
        L = ref[1]
        for i, j in ((0, 1), (0, 2), (1, 2)):
            c = abs(L[i] @ L[j]) / np.linalg.norm(L[i]) / np.linalg.norm(L[j])
            if 1e-9 < c < 0.03:
                angle = -1
        if ref[0] <= 2:  # reciprocal angles decide
            angle = -1
    eps = 1e-6 * np.abs(cell).max()
    if same_reference(ref, reference(cell, atoms, symprec, angle), eps):
        return atoms, [symprec, angle]
    if same_reference(ref, reference(cell, exact, symprec, angle), eps):
        return small, [symprec, angle]
    return small, None


class _Sub:
    def __init__(self, owner, mod):
        self._o, self._m = owner, mod

    def __getattr__(self, n):
        f = getattr(self._m, n)
        return self._o._wrap(f) if callable(f) else f


class Toleranced:
    """The library as a user with tolerances of his own calls it."""

    def __init__(self, w, cell, atoms, tol):
        self._w, self._cell, self._atoms, self._tol = w, cell, atoms, tol
        self.crystal, self.kpoints = _Sub(self, w.crystal), _Sub(self, w.kpoints)
        self.Kpoints = _Sub(self, w.Kpoints)

    def _data(self):
        return self._w.get_spglib_data(
            self._cell, self._atoms, spglib_symprec=self._tol[0], spglib_angle_tolerance=self._tol[1]
        )

    def _wrap(self, f):
        def g(*a, **kw):
            if len(a) >= 2 and a[1] is self._atoms and f.__name__ != "validate_atoms":
                kw["spglib_data"] = self._data()
            return f(*a, **kw)

        return g

    def get_spglib_data(self, cell, atoms):
        if atoms is self._atoms:
            return self._data()
        return self._w.get_spglib_data(cell, atoms)

    def __getattr__(self, n):
        return getattr(self._w, n)


def tolerances(w):
    return w._tol if isinstance(w, Toleranced) else (1e-5, -1)


def slack(w, A0):
    """How far (relative) the tolerances of the user move the borders of variations."""
    if not isinstance(w, Toleranced):
        return 0.0
    symprec, angle = w._tol
    s = 4 * symprec / np.linalg.norm(A0, axis=1).min()
    return s + (4 * np.radians(angle) if angle != -1 else 0)


def whole(v):
    r = np.rint(v)
    return r.astype(int) if np.abs(v - r).max() < 1e-9 else v


def formed(d, cell, atoms):
    """The same numbers in another container."""
    f, pos = d.get("form", "array"), atoms["positions"]
    if f.startswith("int"):
        cell, pos = whole(cell), whole(pos)
    if f.endswith("list"):
        cell, pos = cell.tolist(), pos.tolist()
    elif f == "tuple":
        cell, pos = tuple(map(tuple, cell.tolist())), [tuple(p) for p in pos.tolist()]
    return cell, dict(atoms, positions=pos)


def setup(x, d):
    """(library, A0, cell, atoms) of a description."""
    w = core.wulfric()
    A0, cell, atoms = realise(x, d)
    atoms, tol = tolerance(x, d, cell, atoms)
    cell, atoms = formed(d, cell, atoms)
    if tol is not None:
        w = Toleranced(w, cell, atoms, tol)
    return w, A0, cell, atoms


def grid_cell(A0, cell, exact=False):
    g = np.asarray(cell, dtype=float) @ np.linalg.inv(A0) * N
    return core.qmat(g, 1, 1e-6 if exact else 1e-3)


def grid_out(A0, cell, atoms, exact=False):
    """Output of get_conventional/get_primitive as grid integers.  The input of an
    exact case is given with all digits, its output has to be so as well (wulfric keeps
    8 decimals of relative coordinates)."""
    gi, ok = grid_cell(A0, cell, exact)
    gf = np.asarray(cell, dtype=float) @ np.linalg.inv(A0) * N
    pos = np.asarray(atoms["positions"], dtype=float)
    if pos.ndim != 2 or pos.shape[1:] != (3,) or len(pos) == 0:
        return gi, [], False
    pg = pos @ gf
    pg = pg - pg[0]
    pi, ok2 = core.qmat(pg, 1, 3e-5 if exact else 5e-3)
    return gi, pi, ok and ok2


def out_rec(key, A0, res, exc, exact=False):
    o = dict(id=key, exc=core.exc_name(exc), grid=True, cell=[[0] * 3] * 3, at=[], keys=True)
    if exc is not None:
        return o
    c, a = res
    ty = a.get("spglib_types", [])
    gi, pi, ok = grid_out(A0, c, a, exact)
    o["grid"] = bool(ok)
    o["cell"] = gi
    o["keys"] = len(ty) == len(pi)
    if o["keys"]:
        o["at"] = [[p, int(t)] for p, t in zip(pi, ty)]
    return o


CONVS = ("HPKOT", "SC", "spglib")


def outputs(w, A0, cell, atoms, convs=CONVS, kinds=("conv", "prim"), exact=False):
    res = []
    for c in convs:
        for k in kinds:
            f = w.crystal.get_conventional if k == "conv" else w.crystal.get_primitive
            r, e = core.call(f, cell, atoms, convention=c)
            res.append(out_rec(f"{c.lower()}-{k}", A0, r, e, exact))
    return res


def in_desc(d):
    return dict(cell=d["cellg"], at=[[p, t] for p, t in zip(d["pts"], d["types"])])
