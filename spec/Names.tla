-------------------------------- MODULE Names --------------------------------
(* Unique names of atoms.  Plain(s) is the documented naming; it is not always *)
(* unique ("A1" + "1" and "A" + "11"), Machine(s) is a naming that is.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Range(s) == {s[i] : i \in 1..Len(s)}
IsUnique(s) == Cardinality(Range(s)) = Len(s)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* position of atom i among the atoms of its name
RankOf(s, i) == Cardinality({j \in 1..i : s[j] = s[i]})
PlainAll(s) == [i \in 1..Len(s) |-> s[i] \o ToString(i)]
PlainRep(s) == [i \in 1..Len(s) |-> IF Count(s, s[i]) = 1 THEN s[i] ELSE s[i] \o ToString(RankOf(s, i))]
Plain(s, strategy) == IF IsUnique(s) THEN s
                      ELSE IF strategy = "all" THEN PlainAll(s) ELSE PlainRep(s)
(* ------------------------------ the machine ------------------------------ *)
RECURSIVE Pad(_, _)
Pad(t, n) == IF Len(t) >= n THEN t ELSE Pad("0" \o t, n)
PaddedAll(s) == [i \in 1..Len(s) |-> s[i] \o Pad(ToString(i), Len(ToString(Len(s))))]
\* next index of a repeated name whose result is not in use
RECURSIVE FreeFrom(_, _, _)
FreeFrom(name, k, used) == IF (name \o ToString(k)) \in used THEN FreeFrom(name, k + 1, used) ELSE k
RECURSIVE RepStep(_, _, _, _)
RepStep(s, i, out, used) ==
  IF i > Len(s) THEN out
  ELSE IF Count(s, s[i]) = 1 THEN RepStep(s, i + 1, Append(out, s[i]), used)
  ELSE LET new == s[i] \o ToString(FreeFrom(s[i], 1, used))
       IN  RepStep(s, i + 1, Append(out, new), used \cup {new})
Machine(s, strategy) ==
  IF IsUnique(s) THEN s
  ELSE IF strategy = "all" THEN (IF IsUnique(PlainAll(s)) THEN PlainAll(s) ELSE PaddedAll(s))
  ELSE RepStep(s, 1, <<>>, {x \in Range(s) : Count(s, x) = 1})
(* ----------------------------- what is asked ----------------------------- *)
AllDigits(t) == \A i \in 1..Len(t) : SubSeq(t, i, i) \in Digits
Extends(new, old) ==
  /\ Len(new) > Len(old)
  /\ SubSeq(new, 1, Len(old)) = old
  /\ AllDigits(SubSeq(new, Len(old) + 1, Len(new)))
Allowed(s, out, strategy) ==
  /\ Len(out) = Len(s)
  /\ IsUnique(out)
  /\ IF IsUnique(s) THEN out = s
     ELSE \A i \in 1..Len(s) :
            IF strategy = "repeated-only" /\ Count(s, s[i]) = 1 THEN out[i] = s[i] ELSE Extends(out[i], s[i])
=============================================================================
