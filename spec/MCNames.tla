------------------------------ MODULE MCNames ------------------------------
(* The machine names any small list as asked, and as documented whenever the  *)
(* documented naming is unique.                                               *)
EXTENDS Names
CONSTANT MaxLen
VARIABLE s
P == {"A", "A1", "A11", "1", "", "A2"}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in P : s' = Append(s, x)
Spec == Init /\ [][Next]_s
\* a tail of eleven makes indices of two digits
Long == s \o [i \in 1..9 |-> "B"] \o <<"A">>
Good(t) == \A st \in {"all", "repeated-only"} :
             /\ Allowed(t, Machine(t, st), st)
             /\ IsUnique(Plain(t, st)) => Machine(t, st) = Plain(t, st)
Short == Good(s)
Longer == Good(Long)
=============================================================================
