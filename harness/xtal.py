"""Crystals on an integer grid, and their descriptions.

A crystal is generated in one of the 530 settings of the 230 space groups (the
symmetry operations come from spglib's database, the generator decides nothing).
Lattice vectors and atoms live on the grid of 1/N of the setting's cell, so that
any description of the crystal, and anything the code under test returns for it,
can be handed to TLC as exact integers.
"""

import math
from functools import lru_cache

import numpy as np

N = 24


@lru_cache(maxsize=None)
def hall_ops(h):
    import spglib

    d = spglib.get_symmetry_from_database(h)
    t = spglib.get_spacegroup_type(h)
    return (
        d["rotations"].astype(int),
        np.round(d["translations"] * N).astype(int),
        t.number,
    )


def gram(rng, rots, lo=2, hi=9, skew=2):
    """Random integer Gram matrix invariant under the point group."""
    for _ in range(200):
        L = np.array(
            [
                [rng.randint(lo, hi), 0, 0],
                [rng.randint(-skew, skew), rng.randint(lo, hi), 0],
                [rng.randint(-skew, skew), rng.randint(-skew, skew), rng.randint(lo, hi)],
            ]
        )
        G0 = L @ L.T
        G = sum(R.T @ G0 @ R for R in rots)
        g = math.gcd(*[int(x) for x in G.ravel()])
        G = G // g
        if np.linalg.det(G.astype(float)) > 0.5:
            return G
    raise RuntimeError("no gram")


def orbit(rots, trs, p):
    return {tuple(int(x) for x in (R @ p + t) % N) for R, t in zip(rots, trs)}


def min_distance(A, pts):
    """Smallest distance between periodic grid points (rows of A = cell)."""
    P = np.array(pts, dtype=float) / N
    d = P[:, None, :] - P[None, :, :]
    d -= np.round(d)
    best = np.inf
    sh = np.array([[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)])
    n = len(P)
    for s in sh:
        x = np.linalg.norm((d + s) @ A, axis=2)
        if not s.any():
            x = x + np.eye(n) * 1e9
        best = min(best, x.min())
    return best


def make(rng, h=None, max_atoms=40, n_orb=None, special=None):
    """Returns dict(h, sg, gram, cell (float 3x3), pts (grid ints), types).

    None when no crystal of that setting was found with so few atoms."""
    for attempt in range(10**6):
        if h is not None and attempt > 20:
            return None
        hh = h or rng.randint(1, 530)
        rots, trs, sg = hall_ops(hh)
        G = gram(rng, rots)
        pts, types = [], []
        k = n_orb or rng.choice([1, 1, 2, 2, 3])
        for t in range(k):
            for _ in range(30):
                mode = rng.random() if special is None else (0 if special else 1)
                if mode < 0.5:
                    c = [0, N // 2, N // 4, 3 * N // 4, N // 3, 2 * N // 3]
                    p = [rng.choice(c) for _ in range(3)]
                    if rng.random() < 0.4:
                        p[rng.randrange(3)] = rng.randrange(N)
                else:
                    p = [rng.randrange(N) for _ in range(3)]
                o = orbit(rots, trs, np.array(p))
                if len(o) + len(pts) <= max_atoms and not (o & set(pts)):
                    break
            else:
                continue
            pts += sorted(o)
            types += [t + 1] * len(o)
        if not pts:
            continue
        vol = math.sqrt(np.linalg.det(G.astype(float)))
        scale = (12.0 * max(1, len(pts)) / vol) ** (1 / 3)
        scale = max(scale, 2.0 / math.sqrt(min(G[i][i] for i in range(3))))
        A = np.linalg.cholesky(G.astype(float)) * scale
        if min_distance(A, pts) < 0.35:
            continue
        return dict(
            h=hh,
            sg=sg,
            gram=[[int(x) for x in r] for r in G],
            scale=scale,
            pts=[list(p) for p in pts],
            types=types,
        )


def base_cell(x):
    """Cartesian cell of the setting."""
    return np.linalg.cholesky(np.array(x["gram"], dtype=float)) * x["scale"]


def random_rotation(rng):
    qd = np.array([rng.gauss(0, 1) for _ in range(4)])
    w, a, b, c = qd / np.linalg.norm(qd)
    return np.array(
        [
            [1 - 2 * (b * b + c * c), 2 * (a * b - c * w), 2 * (a * c + b * w)],
            [2 * (a * b + c * w), 1 - 2 * (a * a + c * c), 2 * (b * c - a * w)],
            [2 * (a * c - b * w), 2 * (b * c + a * w), 1 - 2 * (a * a + b * b)],
        ]
    )


def unimodular(rng, steps=3, maxent=3, det=1):
    while True:
        M = np.eye(3, dtype=int)
        for _ in range(steps):
            i, j = rng.sample(range(3), 2)
            E = np.eye(3, dtype=int)
            r = rng.random()
            if r < 0.7:
                E[i, j] = rng.choice([-1, 1])
            else:
                E[i, i] = E[j, j] = 0
                E[i, j] = 1
                E[j, i] = -1
            M = E @ M
        if det < 0:
            M = -M
        if abs(M).max() <= maxent:
            return M


def lattice_points_in(cellg, supg):
    """Grid translations of the lattice cellg inside the supercell supg."""
    inv = np.linalg.inv(supg.astype(float))
    k = int(round(abs(np.linalg.det(supg.astype(float)) / np.linalg.det(cellg.astype(float)))))
    found = {}
    R = 4
    while len(found) < k:
        for i in range(-R, R + 1):
            for j in range(-R, R + 1):
                for l in range(-R, R + 1):
                    v = np.array([i, j, l]) @ cellg
                    f = v @ inv
                    f = np.round(f - np.floor(f + 1e-9), 6)
                    found.setdefault(tuple(f), v)
        R += 3
        if R > 20:
            raise RuntimeError("lattice points")
    return list(found.values())


def wrap(p, cellg):
    """Grid point p modulo the lattice cellg, exact."""
    f = p @ np.linalg.inv(cellg.astype(float))
    return p - np.floor(f + 1e-9).astype(int) @ cellg


def describe(rng, x, M=None, sup=None, rot=None, shift=None, permute=True, offs=True):
    """One description of crystal x: grid cell, grid points, rotation."""
    B = N * np.eye(3, dtype=int)
    pts = np.array(x["pts"], dtype=int)
    types = list(x["types"])
    if sup is not None:
        S = np.array(sup, dtype=int) @ B
        T = lattice_points_in(B, S)
        npts, ntypes = [], []
        for p, t in zip(pts, types):
            for v in T:
                npts.append(p + v)
                ntypes.append(t)
        B, pts, types = S, np.array(npts), ntypes
    if M is not None:
        B = np.array(M, dtype=int) @ B
    pts = np.array([wrap(p, B) for p in pts])
    if shift is not None:
        pts = pts + np.array(shift)
    if offs:
        for i in range(len(pts)):
            if rng.random() < 0.3:
                pts[i] = pts[i] + np.array([rng.randint(-1, 1) for _ in range(3)]) @ B
    if permute:
        o = list(range(len(pts)))
        rng.shuffle(o)
        pts = pts[o]
        types = [types[i] for i in o]
    return dict(
        cellg=[[int(v) for v in r] for r in B],
        pts=[[int(v) for v in p] for p in pts],
        types=types,
        rot=rot,
    )


def cartesian(x, d):
    """(cell, relative positions) of description d, as the user would pass them."""
    A0 = base_cell(x)
    if d.get("rot") is not None:
        A0 = A0 @ np.array(d["rot"])
    cell = np.array(d["cellg"], dtype=float) / N @ A0
    pos = (np.array(d["pts"], dtype=float)) @ np.linalg.inv(
        np.array(d["cellg"], dtype=float)
    )
    return A0, cell, pos
