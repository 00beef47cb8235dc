------------------------------ MODULE MCNiggli ------------------------------
(* Over all bases of small lattices: the machine ends in a Niggli-reduced    *)
(* metric, keeps the volume, and the result does not depend on the basis.    *)
EXTENDS Niggli, TLC
CONSTANTS MaxDiag, MaxEntry
VARIABLES g
PosDef(M) == M[1][1] > 0 /\ M[1][1] * M[2][2] > M[1][2] * M[1][2] /\ Det(M) > 0
Starts == {M \in {<<<<a, z, y>>, <<z, b, x>>, <<y, x, c>>>> :
                     a, b, c \in 1..MaxDiag, x, y, z \in -2..2} : PosDef(M)}
Elem(i, j, s) == [Id3 EXCEPT ![i][j] = s]
Neg(i) == [Id3 EXCEPT ![i][i] = -1]
Swap(i, j) == [Id3 EXCEPT ![i] = Id3[j], ![j] = Id3[i]]
Moves == {Elem(i, j, s) : i \in I3, j \in I3, s \in {-1, 1}} \cup {Neg(i) : i \in I3} \cup {Swap(1, 2), Swap(2, 3)}
Bounded(M) == \A i, j \in I3 : Abs(M[i][j]) <= MaxEntry
Init == g \in Starts
Next == \E T \in {U \in Moves : Abs(Det(U)) = 1} :
          g' = Gram(T, g) /\ Bounded(g')
Spec == Init /\ [][Next]_g
Reduced6 == IsNiggli(Reduction(g))
SameVolume == Det(GramOfParams(Reduction(g))) = 8 * Det(g)
Fixed1 == LET p == Reduction(g) IN NReduce(p, 5) = p
Unique == [][Reduction(g') = Reduction(g)]_g
=============================================================================
