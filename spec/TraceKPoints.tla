--------------------------- MODULE TraceKPoints ----------------------------
(* C07: high-symmetry points are those of the tables of the convention, in   *)
(* the basis of the reciprocal vectors of the given cell and in absolute      *)
(* coordinates.  All coordinates are integers in units of 10^-6: p.abs are    *)
(* the scalar products of the absolute vector with the vectors of the         *)
(* setting's cell (over 2 pi), p.rel the relative coordinates.                *)
EXTENDS TraceLib, KPoints
N == 24
Tol == 40
RDivInt(a, n) == IF a < 0 THEN -((-a + n \div 2) \div n) ELSE (a + n \div 2) \div n
\* scalar products with the vectors of grid basis B (over N), split against overflow
Along(B, n, k) == [i \in I3 |-> RDivInt(B[i][1] * k[1], n) + RDivInt(B[i][2] * k[2], n)
                                + RDivInt(B[i][3] * k[3], n)]
NearV(a, b, tol) == \A i \in I3 : Abs(a[i] - b[i]) <= tol
Small(p) == \A i \in I3 : Abs(p.abs[i]) < 30000000 /\ Abs(p.rel[i]) < 100000000
PrimBasis6(o) == MM(Transp(Matrix6(o.id, LatticeType(o.sg))), o.convg)
IsImage(n) == Len(n) > 2 /\ SubSeq(n, Len(n) - 1, Len(n)) = "_P"
\* points that the tables themselves place outside of the zone (the SC triclinic
\* points too: SC does not ask for a reduced reciprocal cell)
Outside == {<<"MCLC1", "F3">>, <<"MCLC2", "F3">>}
VarsOf(o, G) ==
  LET S == IF o.id = "sc" THEN SCVariations(o.sg, Reduced(G)) \ {"ValueError"}
           ELSE HPKOTSymbols(o.sg, Reduced(G))
  IN  IF Cardinality(S) = 1 THEN S
      ELSE IF o.sym \in Variations(o.id) THEN {o.sym} ELSE S
Refused(o) == o.id = "sc" /\ o.sym = "ValueError"
ObsClauses(r, o) ==
  LET t == ":" \o o.id
  IN  IF o.exc # ""
      THEN (IF ~Refused(o) \/ o.exc # "ValueError" THEN {"Returns" \o t \o ":" \o o.exc} ELSE {})
      ELSE IF ~o.grid \/ Det(o.convg) = 0 THEN {"OnCrystal" \o t}
      ELSE IF ~(\A i \in 1..Len(o.points) : Small(o.points[i])) THEN {"Finite" \o t}
      ELSE
        LET G == Gram(o.convg, r.gram)
            v == CHOOSE v \in VarsOf(o, G) : TRUE
            tb == Tab(TableOf(v))
            fp == FixedParams(v, Reduced(G))
            B == PrimBasis6(o)
            base == {i \in 1..Len(o.points) : ~IsImage(o.points[i].n)}
            nm(S) == {o.points[i].n : i \in S}
        IN  Fails("NamesOfTheTable" \o t \o ":" \o v, nm(base) = Names(tb))
            \cup Fails("GammaIsOrigin" \o t,
                       \E i \in base : o.points[i].n = "GAMMA" /\ o.points[i].orig
                                       /\ o.points[i].rel = <<0, 0, 0>>)
            \cup UNION {LET p == tb[j]
                            S == {i \in base : o.points[i].n = p.n}
                        IN  IF S = {} THEN {} ELSE
                            Fails("Coordinates" \o t \o ":" \o v \o ":" \o p.n,
                                  \A i \in S : NearV(Along(B, 6 * N, o.points[i].abs),
                                                     Coord(p, fp), Tol))
                        : j \in 1..Len(tb)}
            \cup Fails("RelativeIsAbsolute" \o t,
                   \A i \in 1..Len(o.points) :
                     LET p == o.points[i]
                     IN  NearV(Along(r.cellg, N, p.abs), p.rel, Tol))
            \cup Fails("InsideTheZone" \o t,
                   \A i \in 1..Len(o.points) :
                     \/ o.id = "sc" /\ LatticeType(o.sg) = "aP"
                     \/ <<v, o.points[i].n>> \in Outside
                     \/ Len(o.points[i].n) > 2 /\ <<v, SubSeq(o.points[i].n, 1, Len(o.points[i].n) - 2)>> \in Outside
                     \/ o.points[i].zone <= Tol + o.slack)
            \cup Fails("RelativeSame" \o t,
                   o.path = o.rpath /\ Len(o.rnames) = Len(o.points)
                   /\ {o.rnames[i] : i \in 1..Len(o.rnames)} = nm(1..Len(o.points)))
            \cup Fails("KpointsFromCrystal" \o t,
                   /\ o.kpath = o.path /\ o.labels
                   /\ o.rc[2] /\ o.rc[1] = Id3
                   /\ Len(o.kp) = Len(o.points)
                   /\ \A i \in 1..Len(o.points) : \E j \in 1..Len(o.kp) :
                        o.kp[j].n = o.points[i].n /\ NearV(o.kp[j].rel, o.points[i].rel, 2))
Clauses(r) == UNION {ObsClauses(r, r.obs[k]) : k \in 1..Len(r.obs)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
