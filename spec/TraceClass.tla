---------------------------- MODULE TraceClass -----------------------------
(* C04: space group, Bravais lattice type, symbol and variation.            *)
EXTENDS TraceLib, KPoints
Clauses(r) ==
  LET lt == LatticeType(r.sg)
      H == Reduced(Gram(r.hcell, r.gram))
      S == Reduced(Gram(r.scell, r.gram))
  IN  Fails("SpaceGroup", r.sg = r.ref)
      \cup Fails("CrystalFamily", r.family = Family(r.sg))
      \cup Fails("CentringType", r.centring = Centring(r.sg))
      \cup (IF ~r.grid \/ Det(r.hcell) = 0 \/ Det(r.scell) = 0 THEN {"OnCrystal"} ELSE
            Fails("Symbol:" \o r.symbol, r.symbol \in HPKOTSymbols(r.sg, H))
            \cup Fails("Variation:" \o r.variation, r.variation \in SCVariations(r.sg, S)))
      \cup Fails("DocumentedSymbol", r.symbol \in Variations("hpkot"))
      \cup Fails("DocumentedVariation", r.variation \in Variations("sc") \cup {"ValueError"})
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
