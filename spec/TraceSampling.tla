--------------------------- MODULE TraceSampling ---------------------------
(* C11: labels, ticks and sampled points of one Kpoints object.  Lengths and *)
(* coordinates are integers in units of 10^-4, point coordinates are in 1/24 *)
(* of the reciprocal vectors, r.gram is their metric.                        *)
EXTENDS TraceLib, Sampling
U == 10000
Den == 24
I3 == 1..3
AbsI(x) == IF x < 0 THEN -x ELSE x
Eye == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Delta(a, b) == [i \in I3 |-> b[i] - a[i]]
ViewClauses(r, o, G) ==
  LET S == Segments(r.path)
      ns == Len(S)
      m == r.n + 2
      c(s, k) == r.co[r.path[S[s][1]][S[s][2] + k]]
      t == ":" \o o.id
  IN  IF o.exc # "" THEN {"Returns" \o t \o ":" \o o.exc}
      ELSE IF Len(o.ticks) # NTicks(r.path) THEN {"OneTickPerLabel" \o t}
      ELSE IF Len(o.points) # ns * m \/ Len(o.flat) # ns * m THEN {"NumberOfPoints" \o t}
      ELSE Fails("TicksStartAtZero" \o t, o.ticks # <<>> => o.ticks[1] = 0)
           \cup Fails("TicksAreDistances" \o t,
                  \A s \in 1..ns : LengthIs(o.ticks[s + 1] - o.ticks[s],
                                           Delta(c(s, 0), c(s, 1)), G, Den, U, 3))
           \cup Fails("PointsEquidistant" \o t,
                  \A s \in 1..ns : \A j \in 0..(m - 1) :
                    LET p == o.points[(s - 1) * m + 1 + j]
                        a == c(s, 0)
                        b == c(s, 1)
                    IN  \A i \in I3 :
                          AbsI(p[i] * Den * (m - 1) - U * (a[i] * (m - 1 - j) + b[i] * j))
                            <= 2 * Den * (m - 1))
           \cup Fails("FlatMeetsTicks" \o t,
                  \A s \in 1..ns : \A j \in 0..(m - 1) :
                    AbsI(o.flat[(s - 1) * m + 1 + j] * (m - 1)
                         - (o.ticks[s] * (m - 1 - j) + o.ticks[s + 1] * j)) <= 3 * (m - 1))
Clauses(r) ==
  IF r.exc # "" THEN {"Constructed:" \o r.exc}
  ELSE Fails("LabelsJoinedAtBreaks", r.labels = LabelsOf(r.path, r.lab))
       \cup ViewClauses(r, r.abs, r.gram) \cup ViewClauses(r, r.rel, Eye)
       \cup Fails("DefaultIsAbsolute", r.default)
       \cup Fails("TableRows", Len(r.table) = Len(r.names))
       \cup (IF Len(r.table) # Len(r.names) THEN {} ELSE
             Fails("TableNames", \A i \in 1..Len(r.names) : r.table[i].n = r.names[i])
             \cup Fails("TableCoordinates", \A i \in 1..Len(r.names) :
                    Len(r.table[i].rel) = 3 /\ Len(r.table[i].abs) = 3
                    /\ \A k \in I3 :
                         /\ AbsI(r.table[i].rel[k] * Den - U * r.co[r.names[i]][k]) <= 2 * Den
                         /\ AbsI(r.table[i].abs[k] * Den - U * r.co[r.names[i]][k]) <= 2 * Den))
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
