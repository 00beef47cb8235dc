---------------------------- MODULE TraceAtomOps ----------------------------
(* C17: a history of operations on one dictionary of atoms.                   *)
EXTENDS TraceLib, AtomOps
Before(r, k) == IF k = 1 THEN r.pos ELSE r.steps[k - 1].pos
StepClauses(r, k) ==
  LET s == r.steps[k]
      D == r.D
      P == Before(r, k)
      t == ":" \o s.op
      fr == Fails("OtherKeysUnchanged" \o t, s.kept)
  IN  IF s.op = "shift-nocell" THEN Fails("CellRequired", s.exc = "ValueError" /\ s.pos = P)
      ELSE IF s.exc # "" THEN {"Returns" \o t \o ":" \o s.exc}
      ELSE IF ~s.ok \/ Len(s.pos) # Len(P) THEN {"OnGrid" \o t}
      ELSE fr \cup
        CASE s.op = "ensure" ->
               Fails("ByIntegers", \A i \in 1..Len(P) : \A c \in Ax : (s.pos[i][c] - P[i][c]) % D = 0)
               \cup Fails("Within000", \A i \in 1..Len(P) : \A c \in Ax : s.pos[i][c] \in 0..(IF s.exact THEN D - 1 ELSE D))
               \cup Fails("Definition" \o t, s.exact => s.pos = Ensure000(P, D))
          [] s.op = "cure" ->
               Fails("NonNegative", \A i \in 1..Len(P) : \A c \in Ax : s.pos[i][c] >= 0)
               \cup Fails("Definition" \o t, s.pos = CureNegative(P))
          [] s.op \in {"shift", "shift-default", "shift-abs"} ->
               Fails("Definition" \o t, s.pos = ShiftAtoms(P, s.g))
          [] s.op = "read" ->
               Fails("Unchanged" \o t, s.pos = P)
               \cup Fails("RelativeVector", s.rel = VectorRel(P, s.a, s.b, s.R, D))
               \cup Fails("AbsoluteVector", s.abs = ToAbs(VectorRel(P, s.a, s.b, s.R, D), r.cell))
               \cup Fails("Distance", s.far \/ s.d2 = Norm2(ToAbs(VectorRel(P, s.a, s.b, s.R, D), r.cell)))
               \cup Fails("Antisymmetric", s.back = [c \in Ax |-> -s.abs[c]] /\ (s.far \/ s.d2back = s.d2))
Clauses(r) == UNION {StepClauses(r, k) : k \in 1..Len(r.steps)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
