---------------------------- MODULE TraceCodec -----------------------------
(* C09: observed conversions.  r.kind = "text": r.t -> r.list -> r.back;     *)
(* r.kind = "list": r.p -> r.t -> r.list; r.kind = "bad": not a text.        *)
EXTENDS TraceLib, PathCodec
Clauses(r) ==
  IF r.kind = "bad" THEN Fails("RejectsOtherTypes:" \o r.what, r.exc = "ValueError")
  ELSE IF r.kind = "text"
  THEN IF TooShort(r.t) THEN Fails("RejectsShortSubpath", r.exc = "ValueError")
       ELSE IF GoodText(r.t)
       THEN Fails("TextAccepted", r.exc = "")
            \cup (IF r.exc # "" THEN {} ELSE
                  Fails("TextToList", r.list = Parse(r.t))
                  \cup Fails("TextRoundTrip", r.bexc = "" /\ r.back = r.t))
       ELSE Fails("MalformedRefusedOrKept",
                  r.exc = "ValueError" \/ (r.exc = "" /\ r.bexc = "" /\ r.back = r.t))
  ELSE Fails("ListAccepted", r.exc = "")
       \cup (IF r.exc # "" THEN {} ELSE
             Fails("ListToText", r.t = Show(r.p))
             \cup Fails("ListRoundTrip", r.bexc = "" /\ r.list = r.p))
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
