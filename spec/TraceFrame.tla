----------------------------- MODULE TraceFrame -----------------------------
(* C23: after each operation the tables and both inputs were compared with    *)
(* what they were at the start, and each result with that of the same call    *)
(* made as the only one in a new process.                                     *)
EXTENDS TraceLib, Frame
OpClauses(e) ==
  LET t == IF e.op.op = "call" THEN e.op.f ELSE e.op.op
  IN  Fails("TablesChanged:" \o t, e.tables = 0)
      \cup Fails("InputChanged:" \o t, \A i \in 1..2 : e.inputs[i] = 0)
      \cup (IF e.op.op = "call"
            THEN Fails("ArgumentChanged:" \o t, e.args) \cup Fails("ResultDiffers:" \o t, e.exc = e.ref /\ e.same)
            ELSE {})
RECURSIVE Walk(_, _)
Walk(h, k) == IF k > Len(h) THEN {} ELSE LET bad == OpClauses(h[k]) IN IF bad # {} THEN bad ELSE Walk(h, k + 1)
Clauses(r) == Walk(r.hist, 1)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
