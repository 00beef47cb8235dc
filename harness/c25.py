import json
import os
import tempfile
import warnings

import numpy as np

import core

ID = "C25"
LEVEL = "model_checking"
MODELS = [("MCEngine", "MCEngine_quick.cfg")]
MODELS_THOROUGH = [("MCEngine", "MCEngine_deep.cfg")]
TRACE = "TraceEngine"
RULE = "a history of plotting calls on a grid of subplots; non-trivial when at least three calls drew something"
ASSUMPTIONS = [
    "coordinates are multiples of a quarter of a unit, the unit is one of four lengths",
    "the figure is read through plotly's public attributes, it is not rendered",
]
SCALES = [1.0, 0.37, 11.3, 2.5]
OFF = 10**7


def cases(ctx):
    return ctx.generate("GenEngine", "GenEngine.cfg", simulate=ctx.pick(700, 7000), depth=20)


def unit(op):
    if op["op"] in ("ws", "bz"):
        B = np.array(op["B"])
        return 20 * int(round(np.linalg.det(B @ B.T)))
    return 20


def form(x, f):
    x = np.array(x, dtype=float)
    if f == 1:
        return x
    if f == 2:
        return x.tolist()
    return tuple(tuple(r) if isinstance(r, list) else r for r in x.tolist())


def num(x, u):
    n, ok = core.q(x, u, 2e-3)
    return n if ok else OFF + n


def prepare(w, op, sc):
    """method, arguments of the call"""
    t, f = op["op"], op["form"]
    kw = {}
    if op["r"] != 1 or f == 2:
        kw["row"] = op["r"]
    if op["c"] != 1 or f == 2:
        kw["col"] = op["c"]
    if op["label"]:
        kw["legend_label"] = op["label"]
    if op["group"]:
        kw["legend_group"] = op["group"]
    if t not in ("points", "line", "vector") and not op["noshift"]:
        kw["shift"] = form(np.array(op["shift"]) / 4 * sc, f)
    cols = op.get("colors", [])
    if cols:
        name = "colors" if t in ("points", "atoms") else "color"
        kw[name] = list(cols) if op.get("many") else cols[0]
    if t == "points":
        return "plot_points", [form(np.array(op["pts"]) / 4 * sc, f)], kw
    if t in ("line", "vector"):
        if t == "vector" and op["vlabel"]:
            kw["vector_label"] = op["vlabel"]
        return "plot_" + t, [form(np.array(op[x]) / 4 * sc, f) for x in "ab"], kw
    B = np.array(op["B"], dtype=float) * sc
    if t in ("cell", "ws", "bz"):
        if not op["vectors"] or f == 3:
            kw["plot_vectors"] = op["vectors"]
        if op["vlabel"]:
            kw["vector_label"] = op["vlabel"]
        if t != "cell":
            B = np.array(op["T"], dtype=float) @ B
        if t == "bz":
            B = 2 * np.pi * np.linalg.inv(B).T
        return dict(cell="plot_cell", ws="plot_wigner_seitz_cell", bz="plot_brillouin_zone")[t], [form(B, f)], kw
    if t == "lattice":
        if op["range"] != [1, 1, 1] or f == 2:
            kw["range"] = tuple(op["range"])
        return "plot_lattice", [form(B, f)], kw
    if t in ("kpath", "kpoints"):
        kp = w.Kpoints(rcell=B, coordinates=[[x / 4 for x in p] for p in op["pts"]], names=list(op["names"]), labels=[n + "!" for n in op["names"]],
                       path=[[op["names"][i - 1] for i in s] for s in op["path"]])
        if op.get("only"):
            kw["only_from_kpath"] = True
        return "plot_" + t, [kp], kw
    atoms = {"positions": form(np.array(op["pts"]) / 4, f)}
    if op["names"]:
        atoms["names"] = list(op["names"])
    if op["mode"] in (2, 3):
        atoms["species"] = list(op["species"])
    if f == 2:
        atoms["magmoms"] = [[0, 0, i] for i in range(len(op["pts"]))]
    if f == 3:
        atoms["spglib_types"] = [1 for _ in op["pts"]]
        atoms = w.add_sugar(atoms)
    if not op["hover"]:
        kw["add_hoverinfo"] = False
    return "plot_atoms", [form(B, f), atoms], kw


def flat(x):
    if isinstance(x, dict):
        return {k: flat(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [flat(v) for v in x]
    if isinstance(x, np.ndarray):
        return ["array"] + x.tolist()
    if type(x).__name__ == "Kpoints":
        return [flat(x.rcell), flat(x.hs_names), flat(x.hs_coordinates), flat(x.hs_labels), flat(x.path)]
    return repr(x)


def scene_of(t, grid):
    s = t.scene or "scene"
    n = int(s[5:] or 1) - 1
    return [n // grid[1] + 1, n % grid[1] + 1]


def seq(x, n):
    return [x] * n if isinstance(x, str) or not hasattr(x, "__len__") else list(x)


def see(new, grid, op, sc):
    u = unit(op) / sc
    rec = dict(count=len(new), segs=[], marks=[], arrows=[], texts=[], scenes=[], legend=[], groups=[], colors=[], hover=[])
    for t in new:
        rec["scenes"].append(scene_of(t, grid))
        rec["groups"].append(t.legendgroup if isinstance(t.legendgroup, str) else "")
        shown = t.showlegend is None or bool(t.showlegend)
        if shown:
            rec["legend"].append(t.name if isinstance(t.name, str) else "")
        P = [[None if x is None or x != x else num(x, u) for x in p] for p in zip(t.x, t.y, t.z)]
        if t.type == "cone":
            for p, d in zip(P, zip(t.u, t.v, t.w)):
                m = max(abs(x) for x in d)
                rec["arrows"].append([p, [int(round(10000 * x / m)) if m > 0 else 0 for x in d]])
            # shown at p only when p is the tip
            if t.anchor != "tip":
                rec["arrows"].append([[OFF, OFF, OFF], [0, 0, 0]])
            rec["colors"] += [c[1] for c in t.colorscale]
            continue
        mode = t.mode or ""
        if "lines" in mode:
            for a, b in zip(P, P[1:]):
                if None not in a and None not in b:
                    rec["segs"].append([a, b])
            rec["colors"] += [str(x) for x in seq(t.line.color, 1)]
        P = [p for p in P if None not in p]
        if "markers" in mode:
            for p, c in zip(P, seq(t.marker.color, len(P))):
                rec["marks"].append([p, str(c)])
            if op["op"] == "kpoints":
                rec["colors"].append(str(t.marker.color))
        if "text" in mode:
            for p, x in zip(P, seq(t.text, len(P))):
                rec["texts"].append([p, str(x)])
            if op["op"] != "atoms":
                rec["colors"] += [str(x) for x in seq(t.textfont.color, 1)]
        if t.hovertext is not None and t.hoverinfo != "none":
            rec["hover"] += [str(x) for x in seq(t.hovertext, len(P))]
    return rec


def side(leg):
    x, y, xa, ya = leg.x, leg.y, leg.xanchor, leg.yanchor
    if y is not None and y >= 1 and ya == "bottom":
        return "top"
    if y is not None and y <= 0 and ya == "top":
        return "bottom"
    if x is not None and x <= 0 and xa == "right":
        return "left"
    if x is not None and x >= 1 and xa == "left":
        return "right"
    return "inside"


def shown(fig, grid, sc):
    ranges, visible = [], []
    for n in range(grid[0] * grid[1]):
        s = getattr(fig.layout, "scene" if n == 0 else f"scene{n + 1}")
        ax = [s.xaxis, s.yaxis, s.zaxis]
        visible += [a.visible is None or bool(a.visible) for a in ax]
        if all(a.range is not None for a in ax):
            R = [[float(x) / sc for x in a.range] for a in ax]
            L = [r[1] - r[0] for r in R]
            scales = [10**6] * 3
            if s.aspectmode != "data":
                A = [s.aspectratio.x, s.aspectratio.y, s.aspectratio.z]
                try:
                    v = [float(a) / l for a, l in zip(A, L)]
                    scales = [int(min(round(10**6 * x / max(v)), 10**7)) for x in v]
                except (TypeError, ZeroDivisionError, ValueError, OverflowError):
                    scales = [0, 0, 0]
            ranges.append(dict(at=[n // grid[1] + 1, n % grid[1] + 1], range=[[core.q(x, 1000, 1)[0] for x in r] for r in R], scales=scales))
    return dict(ranges=ranges, visible=visible)


def table(w, op):
    """colors of the species of the atoms"""
    z = op["species"] if op["mode"] != 4 else ["X"] * len(op["pts"])
    return [w.constants.ATOM_COLORS[x] for x in z]


def engine(w, case):
    import plotly.graph_objects as go
    from plotly.subplots import make_subplots

    r, c = case["grid"]
    kw = {}
    if case["fig"] == 2:
        kw["fig"] = go.Figure()
    elif case["fig"] == 3:
        kw["fig"] = make_subplots(rows=r, cols=c, specs=[[dict(type="scene") for _ in range(c)] for _ in range(r)])
        return w.PlotlyEngine(_sphinx_gallery_fix=True, **kw)
    if (r, c) != (1, 1):
        kw.update(rows=r, cols=c)
    return w.PlotlyEngine(_sphinx_gallery_fix=True, **kw)


def execute(case):
    w = core.wulfric()
    grid, sc = case["grid"], SCALES[case["scale"] - 1]
    pe, e = core.call(engine, w, case)
    rec = dict(grid=grid, exc=core.exc_name(e), hist=[])
    if e is not None:
        return rec
    for op in case["hist"]:
        n = len(pe.fig.data)
        before = [json.dumps(t.to_plotly_json(), default=lambda x: np.asarray(x).tolist(), sort_keys=True) for t in pe.fig.data]
        op = dict(op)
        ev = dict(op=op)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op["op"] == "show":
                kw = dict(legend_position=op["pos"]) if op["pos"] != "top" else {}
                if not op["axes"]:
                    kw["axes_visible"] = False
                if op["save"]:
                    with tempfile.TemporaryDirectory() as d:
                        f = os.path.join(d, "plot.html")
                        _, e = core.call(pe.save, f, kwargs_write_html=dict(include_plotlyjs=False), **kw)
                        ev["written"] = os.path.isfile(f) and 100 < os.path.getsize(f) < 10**6
                else:
                    _, e = core.call(pe.show, **kw)
                ev["args"] = True
                if e is None:
                    ev["side"] = side(pe.fig.layout.legend)
                    ev.update(shown(pe.fig, grid, sc))
            else:
                name, a, kw = prepare(w, op, sc)
                if op["op"] == "atoms":
                    op["table"] = table(w, op)
                was = flat([a, kw])
                _, e = core.call(getattr(pe, name), *a, **kw)
                ev["args"] = flat([a, kw]) == was
        ev["exc"] = core.exc_name(e)
        now = list(pe.fig.data)
        ev["same"] = [json.dumps(t.to_plotly_json(), default=lambda x: np.asarray(x).tolist(), sort_keys=True) for t in now[:n]] == before
        ev.update(see(now[n:], grid, op, sc) if op["op"] != "show" else dict(count=len(now) - n))
        rec["hist"].append(ev)
    return rec


def nontrivial(r):
    return sum(1 for e in r["hist"] if e["op"]["op"] != "show" and e["exc"] == "") >= 3
