---------------------------- MODULE TraceEngine ----------------------------
(* C25: a history of calls of one engine; after each call the new traces of   *)
(* the figure were read, and that the old ones were as they were.             *)
EXTENDS TraceLib, Engine
HasText(h, n) == \E k \in 1..(Len(h) - Len(n) + 1) : SubSeq(h, k, k + Len(n) - 1) = n
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in ToSet(p) : Count(p, x) = Count(q, x)
\* read segments are pairs; a segment without length shows nothing
SegsOf(e) == {ToSet(e.segs[i]) : i \in {j \in 1..Len(e.segs) : e.segs[j][1] # e.segs[j][2]}}
MaxAbs(v) == Max({Abs(v[1]), Abs(v[2]), Abs(v[3])})
\* direction d is read with a largest component of 10000
Along(d, x) == LET m == MaxAbs(x) IN \A i \in 1..3 : Abs(d[i] * m - 10000 * x[i]) <= 2 * m
ArrowsAgree(A, e) ==
  /\ Len(e.arrows) = Cardinality(A)
  /\ \A a \in A : \E i \in 1..Len(e.arrows) : e.arrows[i][1] = a[1] /\ Along(e.arrows[i][2], a[2])
HoverOK(op, e) ==
  LET N == IF op.op = "kpoints" THEN LET c == KChosen(op) IN [i \in 1..Len(c) |-> op.names[c[i]]] ELSE op.names IN
  /\ Len(e.hover) = IF op.op = "kpoints" THEN Len(N) ELSE Len(op.pts)
  /\ \A i \in 1..Len(N) : HasText(e.hover[i], N[i])
  /\ op.op = "atoms" /\ op.mode \in {2, 3} => \A i \in 1..Len(op.pts) : HasText(e.hover[i], op.species[i])
\* s: [groups, boxes]
Start == [groups |-> {}, boxes |-> <<>>]
PlotClauses(s, g, op, e) ==
  LET t == op.op IN
  IF ~InGrid(g, op) THEN Fails("Refused:" \o t, (e.exc # "" \/ Drawn(op) = Nothing) /\ e.count = 0)
  ELSE IF e.exc # "" THEN {"Outcome:" \o t}
  ELSE
    LET d == Drawn(op)
        none == d = Nothing
        col == IF Len(op.colors) > 0 THEN op.colors[1] ELSE DefaultColor(op)
    IN
    Fails("Segments:" \o t, SegsOf(e) = d.segs)
    \cup Fails("Marks:" \o t, SameBag(e.marks, d.marks))
    \cup Fails("Arrows:" \o t, ArrowsAgree(d.arrows, e))
    \cup Fails("Texts:" \o t, ToSet(e.texts) = d.texts)
    \cup Fails("Subplot:" \o t, \A i \in 1..Len(e.scenes) : e.scenes[i] = <<op.r, op.c>>)
    \cup Fails("Legend:" \o t, IF op.label = "" \/ none THEN \A i \in 1..Len(e.legend) : op.label # "" /\ e.legend[i] = op.label ELSE e.legend = <<op.label>>)
    \cup Fails("Group:" \o t, IF e.count = 0 THEN TRUE
                              ELSE Cardinality(ToSet(e.groups)) = 1 /\ (IF op.group # "" THEN e.groups[1] = op.group ELSE e.groups[1] \notin s.groups \cup {"g1", "g2"}))
    \cup Fails("Colors:" \o t, t \in {"points", "atoms", "lattice"} \/ \A i \in 1..Len(e.colors) : e.colors[i] = col)
    \cup Fails("Hover:" \o t, t = "kpoints" \/ (t = "atoms" /\ op.hover) => HoverOK(op, e))
ShowClauses(s, g, op, e) ==
  LET t == IF op.save THEN "save" ELSE "show"
      low == CASE op.pos = "BOTTOM" -> "bottom" [] op.pos = "Left" -> "left" [] OTHER -> op.pos
  IN
  IF low \notin {"top", "bottom", "left", "right"} THEN Fails("Refused:" \o t, e.exc = "ValueError" /\ e.count = 0)
  ELSE IF e.exc # "" THEN {"Outcome:" \o t}
  ELSE
    Fails("NothingDrawn:" \o t, e.count = 0)
    \cup Fails("LegendSide:" \o t, e.side = low)
    \cup Fails("AxesVisible:" \o t, \A i \in 1..Len(e.visible) : e.visible[i] = op.axes)
    \cup Fails("Written:" \o t, op.save => e.written)
    \* e.ranges: per subplot <<r, c, ranges in 1/1000, relative scales in 1/10^6>>
    \cup Fails("RangeIncludes:" \o t,
          \A i \in 1..Len(s.boxes) :
            LET b == s.boxes[i] IN
            \E j \in 1..Len(e.ranges) :
               /\ e.ranges[j].at = b.at
               /\ \A k \in 1..3 : LET z == e.ranges[j].range[k] IN z[1] < z[2] /\ z[1] * b.u <= 1000 * b.box[k][1] + b.u /\ z[2] * b.u + b.u >= 1000 * b.box[k][2])
    \cup Fails("EqualScales:" \o t,
          \A i \in 1..Len(s.boxes) : \A j \in 1..Len(e.ranges) : e.ranges[j].at = s.boxes[i].at => \A k \in 1..3 : Abs(e.ranges[j].scales[k] - 1000000) <= 2)
Clause(s, g, op, e) ==
  Fails("OthersAsTheyWere:" \o op.op, e.same)
  \cup Fails("ArgumentsAsTheyWere:" \o op.op, e.args)
  \cup (IF op.op = "show" THEN ShowClauses(s, g, op, e) ELSE PlotClauses(s, g, op, e))
After(s, g, op, e) ==
  IF op.op = "show" \/ ~InGrid(g, op) THEN s
  ELSE LET E == Extent(Drawn(op)) IN
       [groups |-> s.groups \cup ToSet(e.groups),
        boxes |-> IF E = {} THEN s.boxes ELSE Append(s.boxes, [at |-> <<op.r, op.c>>, u |-> Unit(op), box |-> BoxOf(E)])]
RECURSIVE Walk(_, _, _, _)
Walk(h, g, k, s) ==
  IF k > Len(h) THEN {}
  ELSE LET bad == Clause(s, g, h[k].op, h[k])
       IN  IF bad # {} THEN bad ELSE Walk(h, g, k + 1, After(s, g, h[k].op, h[k]))
Clauses(r) == IF r.exc # "" THEN {"Outcome:engine"} ELSE Walk(r.hist, r.grid, 1, Start)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
