----------------------------- MODULE TraceNames -----------------------------
(* C16: one list of names, made unique with every strategy, and once more.    *)
EXTENDS TraceLib, Names
OutClauses(r, o) ==
  LET t == ":" \o o.id
      st == IF o.id = "default" THEN "all" ELSE o.id
  IN  IF o.id = "unknown" THEN Fails("UnknownRefused", o.exc = "ValueError")
      ELSE IF o.exc # "" THEN {"Returns" \o t \o ":" \o o.exc}
      ELSE Fails("Unique" \o t, IsUnique(o.out))
           \cup Fails("OnePerAtom" \o t, Len(o.out) = Len(r.names))
           \cup Fails("NamesWithDigits" \o t, Allowed(r.names, o.out, st) \/ ~IsUnique(o.out))
           \cup Fails("AsDocumented" \o t, IsUnique(Plain(r.names, st)) => o.out = Plain(r.names, st))
           \cup Fails("AtomsKeepOrGetTheNames" \o t, o.after \in {r.names, o.out})
           \cup Fails("OtherKeysUnchanged" \o t, o.kept)
           \cup Fails("UniqueStayUnchanged" \o t, o.again = o.out)
Clauses(r) == UNION {OutClauses(r, r.outs[k]) : k \in 1..Len(r.outs)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
