----------------------------- MODULE TraceInvar ----------------------------
(* C05: two descriptions of one crystal are standardised alike.  r.a and r.b *)
(* are what was observed for the two descriptions; metrics are taken in the  *)
(* grid of the crystal, so they may be compared although cells differ.       *)
(* Coordinates of k-points are compared through their scalar products.       *)
EXTENDS TraceLib, KPoints
GramOf(o, r) == Gram(o.cell, r.gram)
SameGram(o, p, r) == GramOf(o, r) = GramOf(p, r) /\ Len(o.at) = Len(p.at)
Types(o) == {<<t, Cardinality({i \in 1..Len(o.at) : o.at[i][2] = t})>> :
               t \in {o.at[i][2] : i \in 1..Len(o.at)}}
Near(x, y) == Abs(x - y) <= 20
NearMat(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) :
                    Len(x[i]) = Len(y[i]) /\ \A j \in 1..Len(x[i]) : Near(x[i][j], y[i][j])
OutClauses(r, k) ==
  LET o == r.a.outs[k]
      p == r.b.outs[k]
      t == ":" \o o.id
  IN  IF o.exc # "" \/ p.exc # "" THEN Fails("SameOutcome" \o t, o.exc = p.exc)
      ELSE IF ~o.grid \/ ~p.grid THEN {"OnCrystal" \o t}
      ELSE Fails("SameMetric" \o t, SameGram(o, p, r))
           \cup Fails("SameAtomCounts" \o t, Types(o) = Types(p))
PathClauses(r, k) ==
  LET o == r.a.paths[k]
      p == r.b.paths[k]
      t == ":" \o o.id
  IN  IF o.exc # "" \/ p.exc # "" THEN Fails("SamePathOutcome" \o t, o.exc = p.exc)
      ELSE Fails("SamePath" \o t, o.path = p.path)
           \cup Fails("SamePoints" \o t, o.names = p.names)
           \cup Fails("SamePointsGeometry" \o t, NearMat(o.dots, p.dots))
Again(r) ==
  UNION {LET o == r.again[k]
             p == r.a.outs[k]
             t == ":" \o o.id
         IN  IF o.exc # "" THEN {"StandardiseAgain" \o t \o ":" \o o.exc}
             ELSE IF ~o.grid THEN {"AgainOnCrystal" \o t}
             ELSE Fails("AgainSameMetric" \o t, SameGram(o, p, r))
         : k \in 1..Len(r.again)}
Clauses(r) ==
  Fails("SameSpaceGroup", r.a.sg = r.b.sg)
  \cup (IF r.a.outs[1].exc # "" \/ r.a.outs[3].exc # "" \/ ~r.a.outs[1].grid \/ ~r.a.outs[3].grid
        THEN {"Returns"}
        ELSE IF Degenerate(r.a.sg, Reduced(GramOf(r.a.outs[1], r)), Reduced(GramOf(r.a.outs[3], r)))
        THEN {}
        ELSE Fails("SameSymbol", r.a.symbol = r.b.symbol)
             \cup Fails("SameVariation", r.a.variation = r.b.variation)
             \cup UNION {OutClauses(r, k) : k \in 1..Len(r.a.outs)}
             \cup UNION {PathClauses(r, k) : k \in 1..Len(r.a.paths)}
             \cup Again(r))
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
