----------------------------- MODULE CellAlgebra -----------------------------
(* Cells with integer entries and what is derived from them.                  *)
EXTENDS Lat
\* the reciprocal cell in units of 2 pi / Det(M)
Dual(M) == Transp(Adj(M))
IsDual(M, R) == MM(M, Transp(R)) = MScale(Det(M), Id3)
Products(M) == <<Dot(M[2], M[3]), Dot(M[1], M[3]), Dot(M[1], M[2])>>
\* column convention: the columns of new^T are the columns of old^T times P
IsTransformation(old, new, P, den) == MM(Transp(P), old) = MScale(den, new)
\* six parameters of which a cell can be built; angles in units with Flat = 180
CanForm(a, b, c, al, be, ga, Flat, lt, at) ==
  /\ a > lt /\ b > lt /\ c > lt
  /\ al > at /\ be > at /\ ga > at
  /\ al < Flat - at /\ be < Flat - at /\ ga < Flat - at
  /\ ga + at < al + be /\ be + at < al + ga /\ al + at < be + ga
  /\ al + be + ga + at < 2 * Flat
\* points of a lattice in the order of the relative coordinates
Box(r) == [i \in 1..((2 * r[1] + 1) * (2 * r[2] + 1) * (2 * r[3] + 1)) |->
             LET n2 == 2 * r[2] + 1
                 n3 == 2 * r[3] + 1
                 k == i - 1
             IN  <<(k \div (n2 * n3)) - r[1], ((k \div n3) % n2) - r[2], (k % n3) - r[3]>>]
=============================================================================
