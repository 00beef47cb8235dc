------------------------------- MODULE Refuse -------------------------------
(***************************************************************************)
(* Input that is no crystal (C29).  A request is a function, a dictionary of  *)
(* atoms (see Validate), what kind of cell and of coordinates it comes with.  *)
(* A request passes its gates in some order (atoms, cell, numbers, types);    *)
(* a result is given only to a request that passed all of them.               *)
(***************************************************************************)
EXTENDS Validate
CrystalFunctions == {"conv-hpkot", "conv-sc", "conv-spglib", "prim-hpkot", "prim-sc", "prim-spglib", "path-hpkot", "path-sc",
                     "kpoints-hpkot", "kpoints-sc", "symbol", "variation", "data", "object"}
AtomFunctions == {"types", "names", "repeated", "species"}
Functions == CrystalFunctions \cup AtomFunctions
BadShapes == {"two", "vector", "ragged", "text", "none", "four", "stack", "words", "number"}
Cells == {"good"} \cup BadShapes \cup {"nan", "inf", "flat", "zero"}
Numbers == {"good", "nan", "inf", "none"}
\* keys that a function needs
Needs(f) == CASE f \in CrystalFunctions -> {"positions"} [] f \in {"names", "repeated", "species"} -> {"names"} [] OTHER -> {}
NeedsTypes(f) == f \in CrystalFunctions \/ f = "types"
TypeKeys == {"spglib_types", "species", "names"}
\* the gates
AtomsPass(q) == WellFormed(q.d, Needs(q.f))
TypesPass(q) == ~NeedsTypes(q.f) \/ Keys(q.d) \cap TypeKeys # {}
CellPass(q) == q.f \in AtomFunctions \/ q.cell = "good"
NumbersPass(q) == q.f \in AtomFunctions \/ q.num = "good"
Acceptable(q) == AtomsPass(q) /\ TypesPass(q) /\ CellPass(q) /\ NumbersPass(q)
\* the exceptions of the gates that are closed
Reasons(q) ==
  (IF AtomsPass(q) THEN {} ELSE Errors(q.d, Needs(q.f)))
  \cup (IF TypesPass(q) THEN {} ELSE {"ValueError"})
  \cup (IF NumbersPass(q) THEN {} ELSE {"ValueError"})
  \cup (IF CellPass(q) THEN {}
        ELSE IF q.cell \in {"flat", "zero"} THEN {"RuntimeError", "ValueError"} ELSE {"ValueError", "TypeError"})
=============================================================================
