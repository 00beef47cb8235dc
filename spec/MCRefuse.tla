------------------------------ MODULE MCRefuse ------------------------------
(* The order in which a function looks at its input does not matter for       *)
(* whether it answers, and what it raises is a reason of a closed gate.        *)
EXTENDS Refuse, TLC
VARIABLES q, left, out
Gates == {"atoms", "types", "cell", "numbers"}
Pass(g) == CASE g = "atoms" -> AtomsPass(q) [] g = "types" -> TypesPass(q) [] g = "cell" -> CellPass(q) [] g = "numbers" -> NumbersPass(q)
Says(g) == CASE g = "atoms" -> Errors(q.d, Needs(q.f)) [] g = "cell" -> IF q.cell \in {"flat", "zero"} THEN {"RuntimeError"} ELSE {"ValueError"} [] OTHER -> {"ValueError"}
E(k, n, x, sh) == [key |-> k, kind |-> "seq", n |-> n, items |-> [i \in 1..n |-> x], shape |-> sh]
Pos == {E("positions", 2, "o", <<2, 3>>), E("positions", 2, "o", <<2, 2>>), [E("positions", 2, "o", <<2, 3>>) EXCEPT !.kind = "nolen"], E("positions", 1, "o", <<1, 3>>)}
Nam == {E("names", 2, "s:Cr", <<2>>), E("names", 2, "i:1", <<2>>), E("names", 1, "s:Cr", <<1>>)}
Typ == {E("spglib_types", 2, "i:1", <<2>>), E("spglib_types", 2, "i:0", <<2>>)}
Dicts == {<<>>} \cup {<<p>> : p \in Pos \cup Nam \cup Typ} \cup {<<p, t>> : p \in Pos, t \in Nam \cup Typ} \cup {<<n, t>> : n \in Nam, t \in Typ}
MInit == /\ q \in [f : Functions, d : Dicts, cell : {"good", "two", "nan", "flat"}, num : {"good", "nan"}]
         /\ left = Gates /\ out = "looking"
Look == /\ out = "looking" /\ left # {}
        /\ \E g \in left : IF Pass(g) THEN left' = left \ {g} /\ out' = out
                           ELSE left' = left /\ \E e \in Says(g) : out' = e
        /\ UNCHANGED q
Answer == out = "looking" /\ left = {} /\ out' = "answered" /\ UNCHANGED <<q, left>>
MSpec == MInit /\ [][Look \/ Answer]_<<q, left, out>>
Right == /\ out = "answered" => Acceptable(q)
         /\ out \notin {"looking", "answered"} => out \in Reasons(q) /\ ~Acceptable(q)
HasReason == ~Acceptable(q) <=> Reasons(q) # {}
=============================================================================
