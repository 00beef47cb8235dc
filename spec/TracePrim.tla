----------------------------- MODULE TracePrim -----------------------------
(* C02: lattice points of primitive and conventional cells, and the matrix   *)
(* that ties them.                                                           *)
EXTENDS TraceLib, Conventions
PairClauses(r, cv) ==
  LET c == r.outs[cv.c]
      p == r.outs[cv.p]
      t == ":" \o cv.id
      lt == LatticeType(r.sg)
      good(o) == o.exc = "" /\ o.grid /\ o.keys /\ Det(o.cell) # 0
  IN  IF p.exc # "" \/ c.exc # "" THEN {"Returns" \o t}
      ELSE IF ~good(p) \/ ~good(c) THEN {"OnCrystal" \o t}
      ELSE
        Fails("PrimitiveHoldsOneLatticePoint" \o t, LatticePoints(p) = 1)
        \cup Fails("ConventionalHoldsLatticePoints" \o t,
                   LatticePoints(c) = PointsIn(cv.id, lt)
                   /\ Abs(Det(c.cell)) = PointsIn(cv.id, lt) * Abs(Det(p.cell)))
        \cup Fails("SameLattice" \o t, SubLattice(c.cell, p.cell))
        \cup (IF cv.id = "spglib" THEN {}
              ELSE Fails("PublishedMatrix" \o t,
                         MScale(6, p.cell) = MM(Transp(Matrix6(cv.id, lt)), c.cell)))
Clauses(r) ==
  PairClauses(r, [id |-> "hpkot", c |-> 1, p |-> 2])
  \cup PairClauses(r, [id |-> "sc", c |-> 3, p |-> 4])
  \cup PairClauses(r, [id |-> "spglib", c |-> 5, p |-> 6])
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
