--------------------------- MODULE TraceSnapshot ----------------------------
(* C22: a history; after each operation all data objects were compared with   *)
(* what they were when made, and every call with the result that the same     *)
(* values give without data.                                                  *)
EXTENDS TraceLib, Snapshot
OpClauses(s, e) ==
  LET op == e.op
      o == IF op.op = "call" THEN Outcome(s, op) ELSE ""
  IN  Fails("DataChanged:" \o op.op, e.kept)
      \cup (IF op.op = "data" THEN Fails("DataRefused:" \o e.exc, e.exc = "")
                                \cup Fails("DataIsOfTheInput", e.exc = "" => e.same)
            ELSE IF op.op = "assign" THEN Fails("AttributeReassigned", e.same)
            ELSE IF op.op = "call" THEN
              IF o = "result" THEN Fails("SameWithAndWithoutData:" \o op.f, e.exc = e.ref /\ (e.exc = "" => e.same))
              ELSE Fails("Refuses" \o o \o ":" \o op.f, e.exc = o)
            ELSE {})
OtherNumber(h) == Fails("OtherNumberOfAtomsRefused:" \o h.op.op, \A k \in 1..Len(h.other) : h.other[k] = "ValueError")
RECURSIVE Walk(_, _, _)
Walk(h, k, s) ==
  IF k > Len(h) THEN {}
  ELSE LET bad == IF h[k].op.op = "call" \/ h[k].op.op \in {"data", "assign"} THEN OpClauses(s, h[k]) \cup OtherNumber(h[k])
                  ELSE Fails("DataChanged:" \o h[k].op.op, h[k].kept)
       IN  IF bad # {} THEN bad ELSE Walk(h, k + 1, Step(s, h[k].op))
Clauses(r) == Walk(r.hist, 1, Empty)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
