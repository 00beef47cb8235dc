--------------------------- MODULE TraceExamples ---------------------------
(* C27: example structures are what their names say.                          *)
EXTENDS TraceLib, Examples
\* the classification may be decided by rounding when equality is a variation
NearTri(v, G) ==
  LET R == RGram(G)
  IN  /\ 100 * Abs(R[1][2]) <= Min2(R[1][1], R[2][2])
      /\ v = (IF R[1][3] < 0 THEN "TRI2a" ELSE "TRI2b")
Structure(r) ==
  LET a == Answer(r.op) lt == LatticeType(r.sg) IN
  Fails("Exception:" \o r.exc, r.exc = IF a = Refused THEN Refused ELSE "")
  \cup (IF r.exc # "" \/ a = Refused THEN {} ELSE
    Fails("Shape", r.shape)
    \cup (IF ~r.shape THEN {} ELSE
      Fails("ClassifiedAsNamed:" \o r.label, r.label = a)
      \cup Fails("SpaceGroupSeen", r.seen = r.sg)
      \cup (IF r.op.conv = "sc"
            THEN Fails("IsOfItsType", a \in VariationsOf("sc", IF lt = "oA" THEN "oC" ELSE lt))
                 \cup Fails("IsWhatItSays", a \in SCVariations(r.sg, r.gram) \/ (lt = "aP" /\ NearTri(a, r.gram)))
            ELSE Fails("IsOfItsType", a \in VariationsOf("hpkot", lt))
                 \cup Fails("Inversion", Inversion(r.sg) = r.op.inv)
                 \cup Fails("IsWhatItSays", a \in HPKOTSymbols(r.sg, r.gram)))))
RECURSIVE Walk(_, _, _, _)
Walk(known, s, h, i) ==
  IF i > Len(h) THEN {}
  ELSE LET r == Apply(s, h[i].op)
       IN  IF h[i].exc # r.exc THEN {"HistoryException:" \o h[i].exc}
           ELSE IF Len(h[i].codes) # Len(r.s) THEN {"HistoryLength"}
           ELSE LET k == Learn(known, r.s, h[i].codes)
                IN  IF ~Contents(k, r.s, h[i].codes) THEN {"OwnCopies"} ELSE Walk(k, r.s, h, i + 1)
Cell(r) ==
  Fails("Exception:" \o r.exc, r.exc = "")
  \cup (IF r.exc # "" THEN {} ELSE
    Fails("Shape", r.shape)
    \cup (IF ~r.shape THEN {} ELSE
      Fails("Metric:" \o r.f, r.gramok /\ r.gram = CellGram80(r.f, r.p))
      \cup Fails("RightHanded:" \o r.f, r.right)
      \cup Fails("Form:" \o r.f, CASE r.f # "TRI" -> InForm(r.f, r.p, r.form) [] OTHER -> r.rec \/ Triangular(r.form))))
Clauses(r) ==
  CASE r.kind = "structure" -> Structure(r) [] r.kind = "history" -> Walk({}, <<>>, r.hist, 1) [] r.kind = "cell" -> Cell(r)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
