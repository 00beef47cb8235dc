import numpy as np

import core

ID = "C10"
LEVEL = "model_checking"
MODELS = [("MCKpointsSM", "MCKpointsSM_quick.cfg")]
MODELS_THOROUGH = [("MCKpointsSM", "MCKpointsSM_deep.cfg")]
TRACE = "TraceKpointsSM"
RULE = "a history of operations generated by the Kpoints machine; non-trivial when some operation is rejected"
ASSUMPTIONS = [
    "names are free of the separators of the text form of the path",
    "coordinates, labels and the reciprocal cell may be changed in place by their user, the list of names is not",
]

R1 = [[1.0, 0.25, 0.0], [0.0, 2.0, 0.5], [-0.5, 0.0, 4.0]]
RCELL = {1: R1, 2: [[2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], 3: [[0.0, 1.5, 1.5], [1.5, 0.0, 1.5], [1.5, 1.5, 0.0]]}
TOK = {1: [0, 0, 0], 2: [0.5, 0, 0.25], 3: [0.125, -0.75, 1], 4: [1 / 3, 2 / 3, 0.1], 5: [1, 2, 3]}


def cases(ctx):
    out = []
    for g in ctx.generate("GenKpoints", "GenKpoints.cfg", simulate=ctx.pick(4000, 40000), depth=16):
        out.append(dict(hist=g["hist"], kind="remove-used" if g["ended"] else "history"))
    return out


def token(v):
    v = np.asarray(v, dtype=float)
    if v.shape != (3,):
        return -1
    for t, c in TOK.items():
        if np.allclose(v, c, rtol=0, atol=1e-9):
            return t
    return -1


def see(k):
    p, e = core.call(lambda: k.path)
    s, e2 = core.call(lambda: k.path_string)
    return dict(
        names=[str(n) for n in k.hs_names],
        ckeys=[str(n) for n in k.hs_coordinates],
        lkeys=[str(n) for n in k.hs_labels],
        co=[token(v) for v in k.hs_coordinates.values()],
        la=[str(v) for v in k.hs_labels.values()],
        path=[[str(n) for n in s] for s in p] if p is not None else [["None"]],
        ps=s if e2 is None else "!" + core.exc_name(e2),
        cell=next((c for c, r in RCELL.items() if np.shape(k.rcell) == (3, 3) and np.allclose(k.rcell, r, rtol=0, atol=1e-9)), -1),
        n=k.n if isinstance(k.n, int) else -1,
    )


def as_rows(x, given):
    if given == "tuple":
        return tuple(map(tuple, x))
    if given == "array":
        return np.array(x, dtype=float).reshape(-1, 3)
    if given == "rows":
        return [np.array(r, dtype=float) for r in x]
    return x


def as_form(p, form):
    if form == "tuple":
        return tuple(tuple(s) for s in p)
    if form == "mixed":
        return [tuple(s) for s in p]
    if form == "array":
        return [np.array(s) for s in p]
    if form == "text":
        return "|".join("-".join(s) for s in p)
    return [list(s) for s in p]


BADN = {"2.5": 2.5, "str": "7", "None": None, "2.0": 2.0}


def execute(case):
    w = core.wulfric()
    objs = [w.Kpoints(np.array(R1)), w.Kpoints(R1)]
    given = [[], []]  # the lists handed over by the caller
    hist = []
    for op in case["hist"]:
        i = op["i"] - 1
        k = objs[i]
        e = None
        o = op["op"]
        if o == "new":
            co = [list(TOK[t]) for t in op["co"]]
            names = list(op["names"]) if op["hasn"] else None
            la = list(op["la"]) if op["hasl"] else None
            path = as_form(op["path"], op["form"]) if op["hasp"] else None
            if path == "":
                path = []
            rc = as_rows([list(r) for r in RCELL[op["cell"]]], op["given"])
            co = as_rows(co, op["given"])
            kw = dict(coordinates=co, n=op["n"])
            if names is not None:
                kw["names"] = names
            if la is not None:
                kw["labels"] = la
            if path is not None:
                kw["path"] = path
            new, e = core.call(w.Kpoints, rc, **kw)
            if e is None:
                objs[i] = new
            given[i] += [x for x in (co, names, la, path, rc) if isinstance(x, (list, np.ndarray))] + [x for x in (*co, *rc) if isinstance(x, (list, np.ndarray))]
        elif o == "add":
            c = list(TOK[op["c"]]) if op["rel"] else list(np.array(TOK[op["c"]]) @ np.array(k.rcell))
            c = np.array(c) if op["form"] == "array" else tuple(c) if op["form"] == "tuple" else c
            kw = {} if op["la"] == "" else dict(label=op["la"])
            if not op["rel"]:
                kw["relative"] = False
            _, e = core.call(k.add_hs_point, op["name"], c, **kw)
            given[i].append(c)
        elif o == "remove":
            _, e = core.call(k.remove_hs_point, op["name"])
        elif o in ("text", "list"):
            p = op["text"] if o == "text" else as_form(op["path"], op["form"])
            _, e = core.call(setattr, k, "path", p)
            if isinstance(p, list):
                given[i] += [p] + [s for s in p if isinstance(s, list)]
        elif o == "n":
            _, e = core.call(setattr, k, "n", op["n"])
        elif o == "badn":
            _, e = core.call(setattr, k, "n", BADN[op["v"]])
        elif o == "copy":
            c, e = core.call(k.copy)
            if e is None:
                objs[1 - i] = c
                given[1 - i] = []
        elif o == "mutate":  # the caller changes the lists that were passed
            for g in given[i]:
                if isinstance(g, np.ndarray):
                    g[...] = 7
                elif isinstance(g, list) and g:
                    if isinstance(g[0], (list, np.ndarray)):
                        g.pop()
                    elif isinstance(g[0], str):
                        g[0] = "zz"
                        g.append("yy")
                    else:
                        g[0] = 55.0
        elif o == "poke":  # the user changes attributes in place
            if op["name"] in k.hs_names:
                a = k.hs_coordinates[op["name"]]
                if isinstance(a, np.ndarray) and a.dtype == float and a.flags.writeable:
                    a[...] = TOK[op["c"]]
                else:
                    k.hs_coordinates[op["name"]] = np.array(TOK[op["c"]])
                k.hs_labels[op["name"]] = op["la"]
        elif o == "cell":
            if k.rcell.dtype == float and k.rcell.flags.writeable:
                k.rcell[...] = RCELL[op["c"]]
            else:
                k.rcell = np.array(RCELL[op["c"]])
        elif o == "read":
            for f in (lambda: k.labels, lambda: k.ticks(), lambda: k.points(), lambda: k.flat_points(),
                      lambda: k.hs_table(), lambda: k.ticks(relative=True), lambda: k.points(relative=True)):
                _, e2 = core.call(f)
                e = e or e2
        hist.append(dict(op=op, exc=core.exc_name(e), obs=[see(objs[0]), see(objs[1])]))
    return dict(hist=hist)


def nontrivial(r):
    return any(h["exc"] for h in r["hist"])


def stats(cases, recs):
    import collections

    c = collections.Counter()
    for r in recs:
        for h in (r or {}).get("hist", []):
            c[h["op"]["op"] + (":" + h["exc"] if h["exc"] else "")] += 1
    return dict(operations=c)
