----------------------------- MODULE GenRefuse ------------------------------
(* Requests for the real code: the dictionaries of GenValidate, most of them   *)
(* with everything a function needs, and a cell and numbers with some fault.   *)
EXTENDS Refuse, GenValidate
Put(e, k) == IF k \in Keys(e) THEN e ELSE Append(e, TLCEval(MakeEntry(k, "")))
Order(e) == LET r == Some(1..2) IN IF r = 1 THEN e ELSE [i \in 1..Len(e) |-> e[Len(e) + 1 - i]]
Full(e) == LET a == IF n > 0 /\ Some(1..12) > 1 THEN TLCEval(Put(e, "positions")) ELSE e
               b == IF Some(1..6) > 1 THEN TLCEval(Put(a, Some({"names", "names", "species", "spglib_types"}))) ELSE a
           IN  b
Request(e) ==
  LET k == Some(1..8) IN
  [f |-> Some(IF Some(1..5) = 1 THEN AtomFunctions ELSE CrystalFunctions), d |-> TLCEval(Order(TLCEval(Full(e)))),
   cell |-> IF k <= 2 THEN Some(Cells) ELSE "good", num |-> IF k = 3 THEN Some(Numbers) ELSE "good",
   given |-> Some(1..4) = 1, form |-> Some(1..3)]
EmitR == (last \/ Len(d) = 3) => PrintT("GEN " \o ToJson(TLCEval(Request(d))))
=============================================================================
