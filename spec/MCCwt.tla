------------------------------- MODULE MCCwt -------------------------------
(* The order axioms, for all small numbers and tolerances.                    *)
EXTENDS Cwt
CONSTANT M
VARIABLES x, y, eps
vars == <<x, y, eps>>
Init == x = 0 /\ y = 0 /\ eps \in 0..M
Next == /\ UNCHANGED eps
        /\ \/ x' \in {x - 1, x + 1} /\ x' \in -M..M /\ UNCHANGED y
           \/ y' \in {y - 1, y + 1} /\ y' \in -M..M /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
C(op) == Compare(x, op, y, eps)
D(op) == Compare(y, op, x, eps)
Trichotomy == /\ C("<") \/ C("==") \/ C(">")
              /\ ~(C("<") /\ C("==")) /\ ~(C("<") /\ C(">")) /\ ~(C("==") /\ C(">"))
Derived == /\ C("!=") = ~C("==")
           /\ C("<=") = (C("<") \/ C("=="))
           /\ C(">=") = (C(">") \/ C("=="))
Antisymmetric == C("<") = D(">") /\ C("<=") = D(">=") /\ C("==") = D("==")
Exact0 == eps = 0 => (C("<") = (x < y) /\ C("==") = (x = y))
AbsXY == IF x < y THEN y - x ELSE x - y
Near == (AbsXY <= eps) = C("==")
\* growing the difference never turns "different" into "equal"
Monotone == [][(C("<") /\ x' <= x /\ y' >= y) => Compare(x', "<", y', eps)]_vars
=============================================================================
