----------------------------- MODULE MCKPoints -----------------------------
(* The tables themselves: over a range of metrics of every lattice type, for *)
(* the variation that the metric belongs to, GAMMA is the origin, different  *)
(* points are different and all of them lie in or on the first Brillouin     *)
(* zone of the primitive cell (coordinates in units of 10^-4).               *)
EXTENDS MCClass
GS == {g \in (-2..2) \X (-2..2) \X (-2..2) : g # <<0, 0, 0>>}
\* reciprocal metric of the primitive cell, up to a positive factor
RPrim(conv) == Reduced(Adj(Reduced(PrimGram36(conv, LatticeType(sg), G))))
Coarse(c) == [i \in I3 |-> IF c[i] < 0 THEN -((-c[i] + 50) \div 100) ELSE (c[i] + 50) \div 100]
AbsSum(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
InZone(c, A) ==
  \A g \in GS : LET Ag == VM(g, A)
                IN  2 * Dot(c, Ag) <= 10000 * Dot(g, Ag) + 4 * AbsSum(Ag)
Exempt(conv, v, n) == (conv = "sc" /\ Family(sg) = "a") \/ (v \in {"MCLC1", "MCLC2"} /\ n = "F3")
Sharp(v) == \* off the borders, where the parameters are smooth
  v # "ValueError"
GoodPoints(conv, v) ==
  LET tb == Tab(TableOf(v))
      fp == FixedParams(v, G)
      A == RPrim(conv)
      c == [j \in 1..Len(tb) |-> Coord(tb[j], fp)]
  IN  /\ \A j \in 1..Len(tb) : tb[j].n = "GAMMA" => c[j] = <<0, 0, 0>>
      /\ \A j \in 1..Len(tb) : Exempt(conv, v, tb[j].n) \/ InZone(Coarse(c[j]), A)
\* shortest vectors in the plane of the monoclinic angle, and reduced triclinic cells
ShortPlane ==
  /\ LatticeType(sg) = "oF" => G[1][1] <= G[2][2]
  /\ Family(sg) = "m" => HalfOf(G[1][3], G[1][1], G[3][3]) /\ HalfOf(G[2][3], G[2][2], G[3][3])
\* the metrics are successors of one state per space group, so that workers share them
KInit == sg \in SG /\ G = Id3
KNext == G = Id3 /\ G' \in {M \in Metrics(sg) \cup SCMetrics(sg) : PosDef(M)} /\ UNCHANGED sg
KSpec == KInit /\ [][KNext]_<<sg, G>>
\* quick: a random-looking but fixed part of the triclinic and monoclinic metrics
CONSTANT Stride
Part == Stride = 1 \/ (G[1][1] + 3 * G[2][2] + 5 * G[3][3] + 7 * G[1][3] + 11 * G[2][3] + 13 * G[1][2]) % Stride = 0
PointsInZone ==
  (Part /\ ShortPlane) =>
    /\ (InH /\ Cardinality(HPKOTSymbols(sg, G)) = 1)
         => \A v \in HPKOTSymbols(sg, G) : GoodPoints("hpkot", v)
    /\ (InS /\ Cardinality(SCVariations(sg, G)) = 1)
         => \A v \in SCVariations(sg, G) : Sharp(v) => GoodPoints("sc", v)
=============================================================================
