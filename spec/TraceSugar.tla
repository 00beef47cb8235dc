----------------------------- MODULE TraceSugar -----------------------------
(* C24: a history; after each operation every object was read completely,     *)
(* by items and by attributes.                                                *)
EXTENDS TraceLib, Sugar
ObjClauses(o, e, t) ==
  Fails("KeysInOrder:" \o t, e.keys = Keys(o))
  \cup Fails("Items:" \o t, e.at = o.at)
  \cup Fails("EqualsTheDictionary:" \o t, e.eq)
  \cup Fails("Kind:" \o t, e.sugar = o.sugar)
  \cup Fails("Attributes:" \o t, o.sugar => e.attr = o.at)
RECURSIVE Walk(_, _, _)
Walk(h, k, s) ==
  IF k > Len(h) THEN {}
  ELSE LET e == h[k]
           r == Step(s, e.op)
           t == e.op.op \o "-" \o Way(s, e.op)
           bad == Fails("Outcome:" \o t, e.exc = r.exc)
                  \cup Fails("Value:" \o t, e.val = r.val)
                  \cup Fails("ValuesShared:" \o t, e.shares)
                  \cup Fails("NumberOfObjects", Len(e.obs) = Len(r.s))
                  \cup (IF Len(e.obs) # Len(r.s) THEN {} ELSE UNION {ObjClauses(r.s[i], e.obs[i], IF i = Ob(s, e.op.i) \/ i > Len(s) THEN t ELSE "otherObject") : i \in 1..Len(r.s)})
       IN  IF bad # {} THEN bad ELSE Walk(h, k + 1, r.s)
Clauses(r) == Walk(r.hist, 1, Start)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
