---------------------------- MODULE TraceVoronoi ----------------------------
(* C19: r.p are the Selling parameters of the lattice, r.M the basis (in its  *)
(* obtuse superbase) that was handed to the code, r.v the returned vertices   *)
(* in the superbase times D, r.e the returned edges (indices from 1).         *)
EXTENDS TraceLib, Voronoi
Clauses(r) ==
  LET G == SellingGram(r.p)
      V == Vertices(G)
      E == Edges(V, G)
      got == ToSet(r.v)
      ge == {{r.v[r.e[i][1]], r.v[r.e[i][2]]} : i \in 1..Len(r.e)}
      inrange == \A i \in 1..Len(r.e) : r.e[i][1] \in 1..Len(r.v) /\ r.e[i][2] \in 1..Len(r.v)
  IN  IF ~(Selling(r.p) /\ Det(G) > 0 /\ Unimodular(r.M)) THEN {"CaseIsALattice"}
      ELSE Fails("Returns:" \o r.exc, r.exc = "")
       \cup (IF r.exc # "" THEN {} ELSE
         Fails("Shape", r.shape)
         \cup Fails("VerticesOnTheGrid", r.ongrid)
         \cup Fails("EveryVertexIsNearest", got \subseteq V)
         \cup Fails("NoVertexMissing", V \subseteq got)
         \cup Fails("NoVertexRepeated", Cardinality(got) = Len(r.v))
         \cup Fails("EdgesNameVertices", inrange)
         \cup (IF ~inrange THEN {} ELSE
               Fails("EveryEdgeIsAnEdge", ge \subseteq E)
               \cup Fails("NoEdgeMissing", E \subseteq ge)
               \cup Fails("NoEdgeRepeated", Cardinality(ge) = Len(r.e))
               \cup Fails("Euler", Len(r.v) + Cardinality(Facets(V, G)) = Len(r.e) + 2)))
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
