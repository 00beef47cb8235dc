------------------------------ MODULE TraceCwt ------------------------------
(* C13: all six comparisons of one pair of numbers.  r.x, r.y, r.eps are exact *)
(* integers on a common scale; r.res maps each condition to T, F or the name   *)
(* of the exception raised.                                                   *)
EXTENDS TraceLib, Cwt
Expected(b) == IF b THEN "T" ELSE "F"
Clauses(r) ==
  LET eps == IF r.given THEN r.eps ELSE DefaultEps(r.atol, r.rtol, r.yu)
  IN  (IF r.given \/ (r.x - r.y # eps /\ r.y - r.x # eps) \* the border of a decimal tolerance is not a number
       THEN UNION {Fails("Definition:" \o op, r.res[op] = Expected(Compare(r.x, op, r.y, eps))) : op \in Ops}
       ELSE {})
      \cup Fails("Trichotomy", Cardinality({op \in {"<", "==", ">"} : r.res[op] = "T"}) = 1)
      \cup Fails("NotEqual", (r.res["=="] = "T") = (r.res["!="] = "F"))
      \cup Fails("LessOrEqual", (r.res["<="] = "T") = (r.res["<"] = "T" \/ r.res["=="] = "T"))
      \cup Fails("GreaterOrEqual", (r.res[">="] = "T") = (r.res[">"] = "T" \/ r.res["=="] = "T"))
      \cup UNION {Fails("OtherConditionsRefused", r.other[k] = "ValueError") : k \in 1..Len(r.other)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
