----------------------------- MODULE TraceNiggli -----------------------------
(* C12: one cell, reduced by every implementation.  r.basis is the cell on a  *)
(* grid of metric r.gram; o.t the returned cell in terms of the given one.    *)
EXTENDS TraceLib, Niggli
OutClauses(r, o) ==
  LET t == ":" \o o.id
      P == MM(o.t, r.basis)
      p == ParamsOf(Gram(P, r.gram))
  IN  IF Det(r.basis) = 0 THEN Fails("ZeroVolumeRefused" \o t, o.exc = "ValueError")
      ELSE IF o.id = "unknown" THEN Fails("UnknownRefused", o.exc = "ValueError")
      ELSE IF o.exc # "" THEN {"Returns" \o t \o ":" \o o.exc}
      ELSE IF ~o.integral THEN {"SameLattice" \o t}
      ELSE IF \E i, j \in I3 : Abs(P[i][j]) > 300 THEN {"Reduced" \o t}
      ELSE IF Abs(Det(o.t)) # 1 THEN {"SameLattice" \o t}
      ELSE Fails("SameHandedness" \o t, Det(o.t) = 1)
           \cup Fails("NiggliConditions" \o t, IsNiggli(p))
           \cup Fails("Unique" \o t, p = Reduction(r.gram))
           \cup Fails("InputUnchanged" \o t, o.kept)
Clauses(r) == UNION {OutClauses(r, r.outs[k]) : k \in 1..Len(r.outs)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
