------------------------------ MODULE Voronoi ------------------------------
(* The Wigner-Seitz cell of a lattice, exactly (C19).                         *)
(*                                                                            *)
(* A lattice in three dimensions has an obtuse superbase b0+b1+b2+b3 = 0      *)
(* with b_i.b_j = -p_ij <= 0; the six Selling parameters p_ij are its metric. *)
(* Every lattice vector that touches the Wigner-Seitz cell in a face is a     *)
(* partial sum of the superbase (Conway and Sloane), so the cell is the       *)
(* polyhedron of fourteen half spaces 2 x.u <= u.u, and its vertices are      *)
(* points where three of them with a unimodular matrix meet.  Vertices are    *)
(* kept in the basis b1 b2 b3, times D = 2 Det(G): these are integers.        *)
EXTENDS Lat
\* p = <<p01, p02, p03, p12, p13, p23>>
SellingGram(p) == <<<<p[1] + p[4] + p[5], -p[4], -p[5]>>,
                    <<-p[4], p[2] + p[4] + p[6], -p[6]>>,
                    <<-p[5], -p[6], p[3] + p[5] + p[6]>>>>
Selling(p) == \A i \in 1..6 : p[i] >= 0
HalfSpaces == {u \in {0, 1} \X {0, 1} \X {0, 1} : u # <<0, 0, 0>>}
PartialSums == HalfSpaces \cup {VNeg(u) : u \in HalfSpaces}
SumSeq == SetToSeq(PartialSums)
Norm(u, G) == Dot(VM(u, G), u)
\* three facet vectors, up to order, with a unimodular matrix
Triples == {S \in kSubset(3, 1..14) :
              LET s == SetToSeq(S) IN Abs(Det(<<SumSeq[s[1]], SumSeq[s[2]], SumSeq[s[3]]>>)) = 1}
TripleSeq == SetToSeq({SetToSeq(S) : S \in Triples})
\* point with 2 x.u = u.u for the three u, times 2 Det(G)
Meeting(s, G, q) ==
  LET U == <<SumSeq[s[1]], SumSeq[s[2]], SumSeq[s[3]]>>
      \* x = (1/2) (U G)^-1 q, and (U G)^-1 = Adj(U G) / (Det U Det G)
      A == Adj(MM(U, G))
      v == <<Dot(A[1], q), Dot(A[2], q), Dot(A[3], q)>>
  IN  VScale(Det(U), v)
\* all lattice vectors of R at which the point (times D) is as near as to 0, or
\* {} when it is nearer to one of them
Tight(v, R, G, D) ==
  IF \A u \in R : 2 * Dot(VM(v, G), u) <= D * Norm(u, G)
  THEN {u \in R : 2 * Dot(VM(v, G), u) = D * Norm(u, G)} ELSE {}
Vertices(G) ==
  LET D == 2 * Det(G)
      GU == [i \in 1..14 |-> VM(SumSeq[i], G)]
      N == [i \in 1..14 |-> Dot(GU[i], SumSeq[i])]
      V == {Meeting(s, G, <<N[s[1]], N[s[2]], N[s[3]]>>) : s \in ToSet(TripleSeq)}
  IN  {v \in V : \A i \in 1..14 : 2 * Dot(v, GU[i]) <= D * N[i]}
Edges(V, G) ==
  LET D == 2 * Det(G)
      T == [v \in V |-> Tight(v, PartialSums, G, D)]
  IN  {e \in kSubset(2, V) : LET a == CHOOSE a \in e : TRUE
                                 b == CHOOSE b \in e : b # a
                             IN Cardinality(T[a] \cap T[b]) >= 2}
\* facets: vectors that are tight at three or more vertices
Facets(V, G) ==
  LET D == 2 * Det(G)
  IN  {u \in PartialSums : Cardinality({v \in V : 2 * Dot(VM(v, G), u) = D * Norm(u, G)}) >= 3}
=============================================================================
