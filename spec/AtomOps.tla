------------------------------- MODULE AtomOps -------------------------------
(* Operations that move atoms around.  Relative coordinates are integers in   *)
(* units of 1/D of the lattice vectors (D even).                              *)
EXTENDS Integers, Sequences, FiniteSets
Ax == 1..3
MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxI(S) == CHOOSE x \in S : \A y \in S : x >= y
Column(P, k) == {P[i][k] : i \in 1..Len(P)}
AddAll(P, v) == [i \in 1..Len(P) |-> [k \in Ax |-> P[i][k] + v[k]]]
Ensure000(P, D) == [i \in 1..Len(P) |-> [k \in Ax |-> P[i][k] % D]]
CureShift(P) == [k \in Ax |-> LET m == MinI(Column(P, k)) IN IF m < 0 THEN -m ELSE 0]
CureNegative(P) == AddAll(P, CureShift(P))
\* twice the middle of the extent
Middle2(P) == [k \in Ax |-> MinI(Column(P, k)) + MaxI(Column(P, k))]
\* coordinates are even, so the middle is on the grid
ShiftAtoms(P, g) == AddAll(P, [k \in Ax |-> g[k] - (Middle2(P)[k] \div 2)])
VectorRel(P, a, b, R, D) == [k \in Ax |-> R[k] * D + P[b][k] - P[a][k]]
\* cell with integer entries: units are 1/D of the length unit
ToAbs(v, cell) == [k \in Ax |-> v[1] * cell[1][k] + v[2] * cell[2][k] + v[3] * cell[3][k]]
Norm2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
\* one crystal: every atom moved by a common vector and lattice vectors
SameUpToLattice(P, Q, D) ==
  /\ Len(P) = Len(Q)
  /\ \A i \in 1..Len(P) : \A k \in Ax : ((Q[i][k] - P[i][k]) - (Q[1][k] - P[1][k])) % D = 0
=============================================================================
