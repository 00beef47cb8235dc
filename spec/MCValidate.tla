----------------------------- MODULE MCValidate -----------------------------
(* Dictionaries grow entry by entry: the verdict does not depend on the order *)
(* of entries, an exception is due exactly for the refused ones, and only the *)
(* length faults depend on more than one entry.                               *)
EXTENDS Validate, TLC
VARIABLE d
Item(k, good) == CASE k = "names" -> IF good THEN "s:A" ELSE "i:1"
                   [] k = "species" -> IF good THEN "s:X" ELSE "s:xx"
                   [] k = "spglib_types" -> IF good THEN "i:1" ELSE "i:0"
                   [] OTHER -> "o"
Entries == {[key |-> k, kind |-> kd, n |-> m, items |-> [i \in 1..m |-> Item(k, i # b)], shape |-> sh] :
              k \in {"names", "species", "spglib_types", "positions", "magmoms"},
              kd \in {"seq", "nolen"}, m \in 1..2, b \in 0..1, sh \in {<<2, 3>>, <<2, 2>>, <<-1>>}}
Init == d = <<>>
Next == Len(d) < 2 /\ \E e \in Entries : e.key \notin Keys(d) /\ d' = Append(d, e)
Spec == Init /\ [][Next]_d
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Reqs == {{}, {"names"}, {"positions", "species"}}
OrderFree == \A r \in Reqs : WellFormed(d, r) = WellFormed(Rev(d), r)
ErrorsIffRefused == \A r \in Reqs : WellFormed(d, r) <=> Errors(d, r) = {}
EmptyAccepted == d = <<>> => WellFormed(d, {})
\* a fault never goes away by adding entries (missing keys apart)
FaultsStay == [][~WellFormed(d, {}) => ~WellFormed(d', {})]_d
=============================================================================
