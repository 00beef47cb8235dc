---------------------------- MODULE TraceValidate ----------------------------
(* C14: one dictionary, validated with and without raising.                   *)
EXTENDS TraceLib, Validate
Clauses(r) ==
  LET req == {r.required[k] : k \in 1..Len(r.required)}
      ok == WellFormed(r.d, req)
  IN  IF ok THEN Fails("Accepted", r.raised = "" /\ r.value = "True")
                 \cup Fails("AcceptedQuietly", r.quietraised = "" /\ r.quiet = "True")
                 \cup Fails("Unchanged", r.kept)
      ELSE Fails("Refused", r.raised # "")
           \cup Fails("DocumentedException:" \o r.raised, r.raised = "" \/ r.raised \in Errors(r.d, req))
           \cup Fails("NothingRaised:" \o r.quietraised, r.quietraised = "")
           \cup Fails("RefusedQuietly", r.quietraised # "" \/ r.quiet = "False")
           \cup Fails("Unchanged", r.kept)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
