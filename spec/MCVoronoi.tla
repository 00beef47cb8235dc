----------------------------- MODULE MCVoronoi -----------------------------
(* Walks over the space of lattices by changing one Selling parameter: the    *)
(* combinatorial type of the Wigner-Seitz cell changes only when a parameter  *)
(* becomes zero.                                                              *)
EXTENDS Voronoi, TLC
CONSTANT Top
VARIABLE p
Proper(x) == Det(SellingGram(x)) > 0
Init == p = <<1, 1, 1, 1, 1, 1>>
Next == \E i \in 1..6 : \E k \in 0..Top : p' = [p EXCEPT ![i] = k] /\ Proper(p')
Spec == Init /\ [][Next]_p
G == SellingGram(p)
D == 2 * Det(G)
\* numbers of vertices, edges and faces of the five Fedorov polyhedra
Fedorov == {<<24, 36, 14>>, <<18, 28, 12>>, <<14, 24, 12>>, <<12, 18, 8>>, <<8, 12, 6>>}
Wide == ((-2..2) \X (-2..2) \X (-2..2)) \ {<<0, 0, 0>>}
OneOfFive(V, E, F) == <<Cardinality(V), Cardinality(E), Cardinality(F)>> \in Fedorov
Euler(V, E, F) == Cardinality(V) + Cardinality(F) = Cardinality(E) + 2
Central(V) == \A v \in V : VNeg(v) \in V
\* nothing beyond the partial sums cuts the cell
PartialSumsSuffice(V) == \A v \in V : Tight(v, Wide, G, D) # {}
\* every vertex is a meeting of at least three facets and has as many edges
ThreeFacets(V) == \A v \in V : Cardinality(Tight(v, PartialSums, G, D)) >= 3
GenericIffAllPositive(V) == (Cardinality(V) = 24) = (\A i \in 1..6 : p[i] > 0)
Degrees(V, E) == \A v \in V : Cardinality({e \in E : v \in e}) >= 3
CellIsAPolyhedron ==
  LET V == Vertices(G)
      E == Edges(V, G)
      F == Facets(V, G)
  IN  /\ OneOfFive(V, E, F) /\ Euler(V, E, F) /\ Central(V) /\ PartialSumsSuffice(V)
      /\ ThreeFacets(V) /\ GenericIffAllPositive(V) /\ Degrees(V, E)
=============================================================================
