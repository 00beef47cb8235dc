----------------------------- MODULE TraceSame -----------------------------
(* C01: every returned cell and atoms denote the crystal that was passed.   *)
EXTENDS TraceLib, Lat
Clauses(r) ==
  UNION {
    LET o == r.outs[k]
        t == ":" \o o.id
    IN  IF o.exc # "" THEN {"Returns" \o t \o ":" \o o.exc}
        ELSE IF ~o.keys THEN {"OneTypePerAtom" \o t}
        ELSE IF ~o.grid THEN {"SameOrientationAndPlaces" \o t}
        ELSE Fails("NonDegenerate" \o t, Det(o.cell) # 0)
             \cup IF Det(o.cell) = 0 THEN {} ELSE
               Fails("SameDensity" \o t, SameDensity(r.desc, o))
               \cup Fails("NoCoincidingAtoms" \o t, Distinct(o))
               \cup Fails("SameTranslations" \o t, TranslationsOK(r.desc, o))
               \cup Fails("SameAtoms" \o t, SameShiftExists(r.desc, o))
    : k \in 1..Len(r.outs)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
