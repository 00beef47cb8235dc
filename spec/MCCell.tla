------------------------------- MODULE MCCell -------------------------------
(* Walks over small integer cells by changing one entry: duality is an        *)
(* involution, the metric of the dual is the adjugate metric, and parameters  *)
(* can form a cell iff the metric of a cell with these parameters is positive *)
(* (angles of 60, 90 and 120 degrees, whose cosines are rational).            *)
EXTENDS CellAlgebra, TLC
CONSTANT E
VARIABLE M
Init == M = Id3
Next == \E i, j \in I3 : \E v \in -E..E : M' = [M EXCEPT ![i][j] = v] /\ \A a, b \in I3 : a # b => Abs(M'[a][b]) <= 1
Spec == Init /\ [][Next]_M
DualIsDual == Det(M) # 0 => IsDual(M, Dual(M))
Involution == Det(M) # 0 => Dual(Dual(M)) = MScale(Det(M), M)
DualMetric == Gram(Dual(M), Id3) = Adj(Gram(M, Id3))
DualVolume == Det(Dual(M)) = Det(M) * Det(M)
Symmetric == Products(M) = <<Gram(M, Id3)[2][3], Gram(M, Id3)[1][3], Gram(M, Id3)[1][2]>>
Cos2(x) == CASE x = 60 -> 1 [] x = 90 -> 0 [] x = 120 -> -1
PositiveMetric(al, be, ga) ==
  Det(<<<<2, Cos2(ga), Cos2(be)>>, <<Cos2(ga), 2, Cos2(al)>>, <<Cos2(be), Cos2(al), 2>>>>) > 0
FormIffPositive == M = Id3 =>
  \A al, be, ga \in {60, 90, 120} : CanForm(1, 1, 1, al, be, ga, 180, 0, 0) = PositiveMetric(al, be, ga)
=============================================================================
