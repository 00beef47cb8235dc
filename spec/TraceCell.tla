------------------------------ MODULE TraceCell ------------------------------
(* C18: everything derived from one cell.  r.cell has integer entries; outputs *)
(* are projected to exact integers in the units named below.                  *)
EXTENDS TraceLib, CellAlgebra
Zero(n) == [i \in 1..n |-> 0]
CellClauses(r) ==
  LET M == r.cell
      G == Gram(M, Id3)
      o == r.o
  IN  UNION {{"Returns:" \o o.failed[k]} : k \in 1..Len(o.failed)}
      \cup (IF o.failed # <<>> THEN {} ELSE
       Fails("OnGrid", o.off = <<>>)
       \cup Fails("ReciprocalIsDual", IsDual(M, o.rec))                  \* 2 pi / Det
       \cup Fails("ReciprocalOfReciprocal", o.recrec = M)
       \cup Fails("Lengths", \A i \in I3 : o.len2[i] = G[i][i])
       \cup Fails("Angles", o.coss = Products(M))                        \* |u||v|cos
       \cup Fails("AnglesInRange", o.inrange)
       \cup Fails("ScalarProducts", o.sp = Products(M))
       \cup Fails("Volume", o.vol = [i \in 1..3 |-> Abs(Det(M))])        \* cell, vectors, parameters
       \cup Fails("VolumeRefusesOther", o.volother = "ValueError")
       \cup Fails("FromParamsMetric", o.fpgram = G)
       \cup Fails("FromParamsOrientation", o.fporient)
       \cup Fails("ParamsAccepted", o.check)
       \cup Fails("InputsUnchanged", o.kept))
TransClauses(r) ==
  Fails("Transformation:" \o r.t.exc, r.t.exc = "" /\ r.t.ok /\ IsTransformation(r.cell, r.t.new, r.t.P, r.t.den))
LatticeClauses(r) ==
  LET b == Box(r.lp.range)
  IN  Fails("LatticePoints:" \o r.lp.exc, r.lp.exc = "" /\ r.lp.ok)
      \cup (IF r.lp.exc # "" \/ ~r.lp.ok THEN {} ELSE
         Fails("LatticePointsRelative", r.lp.rel = b)
         \cup Fails("LatticePointsAbsolute", r.lp.abs = [i \in 1..Len(b) |-> VM(b[i], r.cell)])
         \cup Fails("LatticePointsShape", r.lp.shape = <<2 * r.lp.range[1] + 1, 2 * r.lp.range[2] + 1, 2 * r.lp.range[3] + 1, 3>>
                                          /\ r.lp.deep))
AngleClauses(r) ==
  IF r.an.u = Zero(3) \/ r.an.v = Zero(3) THEN Fails("AngleOfZeroVectorRefused", r.an.exc = "ValueError")
  ELSE Fails("Angle:" \o r.an.exc, r.an.exc = "" /\ r.an.c = Dot(r.an.u, r.an.v) /\ r.an.crad = r.an.c /\ r.an.inrange)
SphereClauses(r) ==
  LET s == r.sp
      third == Cross(s.pole, s.zero)
      onaxis == Cross(s.v, s.pole) = Zero(3)
  IN  Fails("Spherical:" \o s.exc, s.exc = "" /\ s.ok)
      \cup (IF s.exc # "" \/ ~s.ok THEN {} ELSE
         Fails("SphericalRadius", s.r2 = Dot(s.v, s.v))
         \cup Fails("SphericalRange", s.inrange)
         \cup Fails("SphericalRadians", s.radians)
         \cup Fails("SphericalPolar", s.alongpole = Dot(s.v, s.pole))
         \cup (IF onaxis THEN Fails("SphericalOnAxis", s.onaxis)
               ELSE Fails("SphericalAzimuth", s.alongzero = Dot(s.v, s.zero) /\ s.alongthird = Dot(s.v, third))))
SixClauses(r) ==
  LET s == r.six
      can == CanForm(s.p[1], s.p[2], s.p[3], s.p[4], s.p[5], s.p[6], s.flat, s.lt, s.at)
      dflt == CanForm(s.p[1], s.p[2], s.p[3], s.p[4], s.p[5], s.p[6], s.flat, 0, 0)
  IN  Fails("CheckIffForms", s.check = (IF can THEN "True" ELSE "False"))
      \cup Fails("CheckRaises:" \o s.raises, s.raises = (IF can THEN "" ELSE "ValueError"))
      \cup Fails("FromParamsRefuses:" \o s.build, s.build = (IF dflt THEN "" ELSE "ValueError"))
      \cup Fails("FromParamsKeepsParams", ~dflt \/ s.build # "" \/ s.back)
Clauses(r) ==
  CASE r.kind = "cell" -> CellClauses(r) \cup TransClauses(r) \cup LatticeClauses(r)
    [] r.kind = "vec" -> AngleClauses(r) \cup SphereClauses(r)
    [] r.kind = "six" -> SixClauses(r)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
