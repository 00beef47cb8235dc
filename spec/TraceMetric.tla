---------------------------- MODULE TraceMetric ----------------------------
(* C03: conventional cells obey the metric rules of their convention.       *)
EXTENDS TraceLib, Conventions
ConvClauses(r, o) ==
  LET t == ":" \o o.id
      lt == LatticeType(r.sg)
      G == Reduced(Gram(o.cell, r.gram))
      cv == o.cv
      f == SubSeq(lt, 1, 1)
  IN  IF o.exc # "" THEN {"Returns" \o t}
      ELSE IF ~o.grid \/ Det(o.cell) = 0 THEN {"OnCrystal" \o t}
      ELSE Fails("RightHanded" \o t, Det(o.cell) > 0)
           \cup Fails("MetricRules" \o t \o ":" \o lt, MetricRules(cv, lt, G))
           \cup Fails("UniqueAxis" \o t \o ":" \o lt, UniqueAxis(cv, lt, o.cell, r.rots))
Clauses(r) == UNION {ConvClauses(r, r.outs[k]) : k \in 1..Len(r.outs)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
