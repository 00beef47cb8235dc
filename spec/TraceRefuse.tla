----------------------------- MODULE TraceRefuse ----------------------------
(* C29: one request; r.raised is the exception, "" when there is a result.     *)
EXTENDS TraceLib, Refuse
Clauses(r) ==
  (IF Acceptable(r) THEN Fails("Accepted:" \o r.f \o ":" \o r.raised, r.raised = "")
   ELSE Fails("Refused:" \o r.f, r.raised # "")
        \cup Fails("DocumentedException:" \o r.f \o ":" \o r.raised, r.raised = "" \/ r.raised \in Reasons(r) \cup (IF r.given THEN {"ValueError", "TypeError"} ELSE {})))
  \cup Fails("Unchanged:" \o r.f, r.kept)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
