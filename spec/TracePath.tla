----------------------------- MODULE TracePath -----------------------------
(* C08: the suggested path and the points defined together with it.         *)
EXTENDS TraceLib, KPoints
Last2(n) == IF Len(n) > 2 THEN SubSeq(n, Len(n) - 1, Len(n)) ELSE ""
ObsClauses(r, o) ==
  LET t == ":" \o o.id \o "-" \o o.how
      V == IF o.id = "sc" THEN SCVariations(r.sg, Reduced(Gram(r.scell, r.gram)))
           ELSE HPKOTSymbols(r.sg, Reduced(Gram(r.hcell, r.gram)))
      ext == ~Inversion(r.sg) /\ ~o.tr
      full(p) == IF ext THEN Extended(p) ELSE p
      names == {o.names[i] : i \in 1..Len(o.names)}
      at(n) == o.pts[CHOOSE i \in 1..Len(o.names) : o.names[i] = n]
      base == {n \in names : Last2(n) # "_P"}
      img(n) == IF n = "GAMMA" THEN "GAMMA" ELSE n \o "_P"
  IN  IF o.exc # "" THEN (IF o.exc = "ValueError" /\ "ValueError" \in V THEN {}
                          ELSE {"Returns" \o t \o ":" \o o.exc})
      ELSE Fails("PathOfTheConvention" \o t,
                 \E v \in V \ {"ValueError"} : o.path = full(PathOf(v)))
           \cup Fails("ExtendedExactlyWhenNeeded" \o t,
                      names = base \cup (IF ext THEN {img(n) : n \in base} ELSE {}))
           \cup Fails("PointsDefined" \o t, PathNames(o.path) \subseteq names)
           \cup Fails("DistinctNames" \o t, Cardinality(names) = Len(o.names))
           \cup Fails("Labels" \o t, o.unlabelled = <<>>)
           \cup Fails("Negatives" \o t,
                      \A n \in base : (n # "GAMMA" /\ img(n) \in names)
                         => LET a == at(n)
                                b == at(img(n))
                            IN  \A i \in I3 : Abs(a[i] + b[i]) <= 2)
Clauses(r) ==
  IF ~r.grid \/ Det(r.hcell) = 0 \/ Det(r.scell) = 0 THEN {"OnCrystal"}
  ELSE UNION {ObsClauses(r, r.obs[k]) : k \in 1..Len(r.obs)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
