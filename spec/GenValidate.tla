----------------------------- MODULE GenValidate -----------------------------
(* Generates dictionaries of atoms (entry by entry) for the real code, most of *)
(* them with at most one fault.                                               *)
EXTENDS Validate, TLC, Json
VARIABLES d, n, budget, last
Range(s) == {s[i] : i \in 1..Len(s)}
KeyPool == {"names", "species", "positions", "spglib_types", "magmoms", "labels", "_private", "Names", ""}
Some(S) == TLCEval(RandomElement(S))
Good(k) == CASE k = "names" -> {"s:Cr1", "s:", "s:Br 2", "s:X", "s:1"}
             [] k = "species" -> {"s:X", "s:" \o Some(ElementSet), "s:" \o Some(ElementSet), "s:Og", "s:H"}
             [] k = "spglib_types" -> PositiveInts
             [] OTHER -> {"o"}
Wrong(k) == CASE k = "names" -> {"i:1", "none", "list", "bytes", "f:1.5"}
              [] k = "species" -> {"i:1", "none", "s:CR", "s:cr", "s:", "s: Cr", "s:Cr1", "s:x", "s:Xx", "s:Uue", "bytes", "s:h", "s:HE", "s:D", "s:CrBr", "s:Cr\n", "s:Cr "}
              [] k = "spglib_types" -> {"i:0", "i:-1", "f:1.5", "f:1.0", "f:3.0", "i:-7", "s:1", "none", "list"}
              [] OTHER -> {"o"}
Items(k, m, bad) ==
  LET at == IF bad /\ m > 0 THEN Some(1..m) ELSE 0
  IN  [i \in 1..m |-> IF i = at THEN Some(Wrong(k)) ELSE Some(Good(k))]
MakeEntry(k, fault) ==
  LET m == IF fault = "length" THEN Some({n + 1, IF n > (IF k = "positions" THEN 1 ELSE 0) THEN n - 1 ELSE n + 2}) ELSE n
      sh == CASE fault = "value" -> Some({<<m>>, <<m, 2>>, <<m, 4>>, <<m, 3, 1>>, <<-1>>, <<m, 1>>, <<m, 3, 3>>, <<m, 2, 3>>, <<m, 1, 3>>})
              [] OTHER -> <<m, 3>>
  IN  [key |-> k, kind |-> IF fault = "nolen" THEN "nolen" ELSE "seq", n |-> m,
       items |-> Items(k, m, fault = "value"), shape |-> sh,
       form |-> Some(1..6)]
GInit == d = <<>> /\ n \in (0..4) \cup {3, 9, 12} /\ budget \in {0, 0, 1, 2} /\ last = FALSE
Pick(S) == {TLCEval(RandomElement(S))}
GNext ==
  /\ ~last /\ Len(d) < 5
  /\ \E k \in Pick(KeyPool) : \E dice \in Pick(1..5) :
     \E f \in Pick({"length", "value", "value", "nolen"} \cup {"value"}) :
       LET fault == IF budget > 0 /\ dice <= 2 THEN f ELSE ""
           skip == k \in Keys(d) \/ (k = "positions" /\ n = 0)
       IN  /\ d' = IF skip THEN d ELSE Append(d, TLCEval(MakeEntry(k, fault)))
           /\ budget' = IF fault # "" /\ ~skip THEN budget - 1 ELSE budget
           /\ n' = n
           /\ last' = (TLCEval(RandomElement(1..6)) = 1)
GSpec == GInit /\ [][GNext]_<<d, n, budget, last>>
Emit == (last \/ Len(d) = 5) =>
  LET req == IF TLCEval(RandomElement(1..2)) = 1 THEN {} ELSE
               {k \in KeyPool : TLCEval(RandomElement(1..4)) = 1 /\ (k \in Keys(d) \/ TLCEval(RandomElement(1..4)) = 1)}
  IN PrintT("GEN " \o ToJson([d |-> d, required |-> req]))
=============================================================================
