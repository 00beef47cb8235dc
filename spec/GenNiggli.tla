----------------------------- MODULE GenNiggli ------------------------------
(* All metrics on the borders of the Niggli conditions: the main conditions   *)
(* of a Buerger-reduced metric hold, at least one of them with an equality    *)
(* that brings a special condition in.  (<<A,B,C,xi,eta,zeta>> of half-units) *)
EXTENDS Niggli, Json, TLC
CONSTANT MaxLen2
VARIABLE p
vars == <<p>>
Ties(q) ==
  (IF q[1] = q[2] THEN {"A=B"} ELSE {}) \cup (IF q[2] = q[3] THEN {"B=C"} ELSE {})
  \cup (IF Abs(q[4]) = q[2] THEN {"xi"} ELSE {}) \cup (IF Abs(q[5]) = q[1] THEN {"eta"} ELSE {})
  \cup (IF Abs(q[6]) = q[1] THEN {"zeta"} ELSE {})
  \cup (IF q[4] + q[5] + q[6] + q[1] + q[2] = 0 THEN {"sum"} ELSE {})
PD(q) == LET M == GramOfParams(q) IN M[1][1] * M[2][2] > M[1][2] * M[1][2] /\ Det(M) > 0
Border == {q \in {<<a, b, c, x, e, z>> : a \in 1..MaxLen2, b \in 1..MaxLen2, c \in 1..MaxLen2,
                     x \in (-MaxLen2)..MaxLen2, e \in (-MaxLen2)..MaxLen2, z \in (-MaxLen2)..MaxLen2} :
             /\ q[1] <= q[2] /\ q[2] <= q[3]
             /\ Abs(q[4]) <= q[2] /\ Abs(q[5]) <= q[1] /\ Abs(q[6]) <= q[1]
             /\ (Pos(q) \/ NonPos(q))
             /\ q[4] + q[5] + q[6] + q[1] + q[2] >= 0
             /\ PD(q) /\ Ties(q) # {}}
\* the last condition (the sum) has borders of its own only for longer vectors
SumBorder == {q \in UNION {{<<a, b, c, x, e, -(a + b + x + e)>> : x \in (-b)..0, e \in (-a)..0}
                           : a \in 1..(MaxLen2 + 3), b \in 1..(MaxLen2 + 3), c \in 1..(MaxLen2 + 4)} :
                /\ q[1] <= q[2] /\ q[2] <= q[3]
                /\ -q[6] \in 0..q[1]
                /\ PD(q)}
GInit == p \in Border \cup SumBorder
GSpec == GInit /\ [][UNCHANGED p]_vars
\* the machine brings every one of them to the unique reduced metric
Right == IsNiggli(NReduce(p, 60)) /\ (IsNiggli(p) => NReduce(p, 60) = p)
Emit == PrintT("GEN " \o ToJson([gram |-> GramOfParams(p), ties |-> Ties(p), done |-> IsNiggli(p)]))
=============================================================================
