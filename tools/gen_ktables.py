#!/usr/bin/env python3
"""One-time transcription of the tables of high-symmetry points of the two papers
into /verif/spec/KTables.tla.  The coordinates were read from the tables as typed in
wulfric at the pinned commit (after reviewing them against the papers' rules, see
DESIGN.md) and are frozen in the committed KTables.tla: checks never run this."""
import ast, sys
from fractions import Fraction as F

def lin(n):
    """linear form {param or '1': coef}"""
    if isinstance(n, ast.Constant): return {"1": F(str(n.value))}
    if isinstance(n, ast.Name): return {n.id: F(1)}
    if isinstance(n, ast.UnaryOp):
        return {k: -v for k, v in lin(n.operand).items()}
    if isinstance(n, ast.BinOp):
        l, r = lin(n.left), lin(n.right)
        if isinstance(n.op, (ast.Add, ast.Sub)):
            s = 1 if isinstance(n.op, ast.Add) else -1
            return {k: l.get(k, F(0)) + s * r.get(k, F(0)) for k in set(l) | set(r)}
        if isinstance(n.op, ast.Div):
            assert set(r) == {"1"}; return {k: v / r["1"] for k, v in l.items()}
        if isinstance(n.op, ast.Mult):
            if set(l) == {"1"}: return {k: v * l["1"] for k, v in r.items()}
            assert set(r) == {"1"}; return {k: v * r["1"] for k, v in l.items()}
    raise ValueError(ast.dump(n))

out = ["------------------------------ MODULE KTables ------------------------------",
"(* The tables of high-symmetry points of Setyawan & Curtarolo (tables 2-21)   *)",
"(* and Hinuma et al. (tables 69-92).  A coordinate is a linear form in the     *)",
"(* parameters of the table: a sequence of <<parameter, num, den>>, parameter   *)",
'(* "1" being the constant.  Coordinates are relative to the reciprocal vectors *)',
"(* of the primitive cell of the convention.                                    *)",
"EXTENDS Integers", "Tab(t) =="]
first = True
for f in ("_sc_points.py", "_hpkot_points.py"):
    tree = ast.parse(open("/repo/src/wulfric/kpoints/" + f).read())
    for fn in tree.body:
        if isinstance(fn, ast.FunctionDef) and fn.name.startswith("_get_points_table_"):
            t = fn.name.rsplit("_", 1)[1]
            d = [s for s in fn.body if isinstance(s, ast.Return)][0].value
            pts = []
            for k, v in zip(d.keys, d.values):
                cs = []
                for e in v.args[0].elts:
                    l = {p: c for p, c in sorted(lin(e).items()) if c}
                    cs.append("<<" + ", ".join(f'<<"{p}", {c.numerator}, {c.denominator}>>' for p, c in l.items()) + ">>")
                pts.append(f'[n |-> "{k.value}", c |-> <<{", ".join(cs)}>>]')
            out.append(("  CASE " if first else "    [] ") + f"t = {t} -> <<\n      " + ",\n      ".join(pts) + " >>")
            first = False
out.append("=" * 78)
open("/verif/spec/KTables.tla", "w").write("\n".join(out) + "\n")
