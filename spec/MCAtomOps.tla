------------------------------ MODULE MCAtomOps ------------------------------
(* Any sequence of operations keeps the crystal; each does what it is for.    *)
EXTENDS AtomOps, TLC
CONSTANTS D, Depth
VARIABLES P, p0, n
vars == <<P, p0, n>>
One == {<<x, y, 0>> : x \in {-6, -2, 0, 2, 4, 10}, y \in {-4, 0, 6}}
Init == P \in {<<a, b>> : a, b \in One} /\ p0 = P /\ n = 0
Ensure == P' = Ensure000(P, D)
Cure == P' = CureNegative(P)
Shift == \E g \in {<<0, 0, 0>>, <<4, 4, 4>>, <<-3, 8, 1>>} :
            \* keep the grid even
            P' = ShiftAtoms([i \in 1..2 |-> [k \in Ax |-> 2 * (P[i][k] \div 2)]], [k \in Ax |-> 2 * g[k]])
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED p0 /\ (Ensure \/ Cure \/ Shift)
Spec == Init /\ [][Next]_vars
SameCrystal == SameUpToLattice(p0, P, D)
EnsureIn == LET Q == Ensure000(P, D) IN
  /\ \A i \in 1..2 : \A k \in Ax : Q[i][k] \in 0..(D - 1)
  /\ Ensure000(Q, D) = Q
CureGood == LET Q == CureNegative(P) IN
  /\ \A i \in 1..2 : \A k \in Ax : Q[i][k] >= 0
  /\ CureNegative(Q) = Q
  /\ \A k \in Ax : MinI(Column(P, k)) >= 0 => \A i \in 1..2 : Q[i][k] = P[i][k]
  /\ \A k \in Ax : MinI(Column(P, k)) < 0 => MinI(Column(Q, k)) = 0
Antisymmetric == \A R \in {<<0, 0, 0>>, <<1, -2, 3>>} :
  VectorRel(P, 1, 2, R, D) = [k \in Ax |-> -VectorRel(P, 2, 1, [j \in Ax |-> -R[j]], D)[k]]
=============================================================================
