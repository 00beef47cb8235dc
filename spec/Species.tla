------------------------------- MODULE Species -------------------------------
(* Species deduced from names, and the types of atoms.                        *)
EXTENDS Integers, Elements, FiniteSets
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
At(s, i) == SubSeq(s, i, i)
UpperSet == {At(Upper, i) : i \in 1..26}
LowerOf(c) == LET i == CHOOSE j \in 1..26 : At(Upper, j) = c IN At(Lower, i)
LowerChar(c) == IF c \in UpperSet THEN LowerOf(c) ELSE c
\* of the symbols: one or two letters
LowSym == [i \in 1..Len(Elements) |->
             IF Len(Elements[i]) = 1 THEN LowerChar(At(Elements[i], 1))
             ELSE LowerChar(At(Elements[i], 1)) \o LowerChar(At(Elements[i], 2))]
\* low: the name in lower case, as a sequence of one-letter texts
Inside(sym, low) ==
  IF Len(sym) = 1 THEN \E i \in 1..Len(low) : low[i] = sym
  ELSE \E i \in 1..(Len(low) - 1) : low[i] \o low[i + 1] = sym
LowName(chars) == [i \in 1..Len(chars) |-> LowerChar(chars[i])]
Candidates(chars, len) ==
  LET low == LowName(chars)
  IN  {i \in 1..Len(Elements) : Len(Elements[i]) = len /\ Inside(LowSym[i], low)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstAt(i, chars) == \* where symbol i of two letters starts in the name
  LET low == LowName(chars) IN MinOf({j \in 1..(Len(low) - 1) : low[j] \o low[j + 1] = LowSym[i]})
\* the species a name stands for: a set, where the documentation leaves a choice
\* ("the first one found": first of the table or first in the name)
SpeciesOf(chars) ==
  LET two == Candidates(chars, 2)
      one == Candidates(chars, 1)
  IN  IF two # {} THEN
        {Elements[MinOf(two)],
         Elements[CHOOSE i \in two : \A j \in two : FirstAt(i, chars) <= FirstAt(j, chars)]}
      ELSE IF one # {} THEN {Elements[i] : i \in one}
      ELSE {"X"}
SameSame(ids, types) ==
  /\ Len(ids) = Len(types)
  /\ \A i, j \in 1..Len(ids) : (ids[i] = ids[j]) = (types[i] = types[j])
=============================================================================
