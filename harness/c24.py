import collections
import copy
import pickle

import numpy as np

import core

# the values of the specification are kinds of values of the real dictionaries
VALUES = [0, None, "", "text", 2.5, [1, [2]], (1, "2"), {"a": 1, "b": {"c": 2}}, np.arange(6).reshape(2, 3), {1, 2}]


def code(v):
    for i, x in enumerate(VALUES):
        if type(v) is type(x) and repr(v) == repr(x):
            return i
    return v if isinstance(v, int) and not 0 <= v < 99 else -2


ID = "C24"
LEVEL = "model_checking"
MODELS = [("MCSugar", "MCSugar_quick.cfg")]
MODELS_THOROUGH = [("MCSugar", "MCSugar_deep.cfg")]
TRACE = "TraceSugar"
RULE = "a history of attribute and item operations on up to four dictionaries; non-trivial when some operation is refused"
ASSUMPTIONS = ["keys are texts that are not names of methods or special attributes of dictionaries"]


def cases(ctx):
    return ctx.generate("GenSugar", "GenSugar.cfg", simulate=ctx.pick(2500, 25000), depth=40)


def see(w, o):
    at = [[k, code(v)] for k, v in o.items()]
    attr = []
    sugar = type(o) is w.SyntacticSugar
    if sugar:
        for k in list(o):
            v, e = core.call(getattr, o, k)
            attr.append([k, code(v) if e is None and v is o[k] else -2])
    plain = {k: v for k, v in o.items()}
    return dict(keys=list(o.keys()), at=at, attr=attr, sugar=sugar,
                eq=bool(o == plain and plain == o and not (o != plain) and len(o) == len(at) and list(o) == [k for k, _ in at] and dict(**o) == plain))


BAD = [None, 1, "names", [("a", 1)], (1, 2), {1, 2}]


def step(w, objs, op):
    o = objs[(op["i"] - 1) % len(objs)]
    way = op["way"] if isinstance(o, w.SyntacticSugar) else "item"
    k, t = op.get("k"), op["op"]
    if t == "get":
        return [getattr(o, k) if way == "attr" else o[k]]
    if t == "set":
        v = copy.deepcopy(VALUES[op["v"]])
        if way == "attr":
            setattr(o, k, v)
        elif op["f"] == 1:
            o[k] = v
        elif op["f"] == 2:
            o.update({k: v})
        else:
            o |= {k: v}
        return None
    if t == "del":
        if way == "attr":
            delattr(o, k)
        elif op["f"] == 1:
            del o[k]
        else:
            o.pop(k)
        return None
    if t == "has":
        return int(hasattr(o, k) if way == "attr" else k in o)
    if t == "default":
        return [getattr(o, k, 99) if way == "attr" else o.get(k, 99)]
    if t == "add":
        objs.append(w.add_sugar(collections.OrderedDict(o) if not isinstance(o, w.SyntacticSugar) and len(o) % 2 else o))
    elif t == "remove":
        objs.append(w.remove_sugar(o))
    elif t == "copy":
        if op["f"] == 1:
            objs.append(copy.deepcopy(o))
        elif op["f"] == 2:
            objs.append(pickle.loads(pickle.dumps(o)))
        elif op["f"] == 3:
            objs.append(copy.copy(o))
        else:
            objs.append(type(o)(o))
    else:
        b = BAD[op["f"] - 1]
        (w.add_sugar if way == "attr" else w.remove_sugar)(b)
    return None


def shares(objs, op, exc, before):
    """the entries of a dictionary made from another one are the same objects"""
    if exc is not None or len(objs) == before or (op["op"] == "copy" and op["f"] <= 2):
        return True
    o = objs[(op["i"] - 1) % before]
    return objs[-1] is not o and all(objs[-1][k] is o[k] for k in o if k in objs[-1])


def execute(case):
    w = core.wulfric()
    objs = [w.SyntacticSugar()]
    hist = []
    for op in case["hist"]:
        n = len(objs)
        v, e = core.call(step, w, objs, op)
        val = -1 if v is None else v if isinstance(v, int) else 99 if isinstance(v[0], int) and v[0] == 99 else code(v[0])
        hist.append(dict(op=op, exc=core.exc_name(e), val=val, shares=shares(objs, op, e, n), obs=[see(w, o) for o in objs]))
    return dict(hist=hist)


def nontrivial(r):
    return any(e["exc"] for e in r["hist"])
