------------------------------ MODULE MCSpecies ------------------------------
(* Names typed letter by letter: there is always an answer, an element's own   *)
(* symbol stands for it, and more letters never lose a two-letter symbol.      *)
EXTENDS Species, TLC
CONSTANT MaxLen
VARIABLE name
Alphabet == {"C", "r", "o", "S", "B", "N", "n", "x", "1"}
Init == name = <<>>
Next == Len(name) < MaxLen /\ \E c \in Alphabet : name' = Append(name, c)
Spec == Init /\ [][Next]_name
Swap(c) == IF c \in UpperSet THEN LowerOf(c)
           ELSE IF \E i \in 1..26 : At(Lower, i) = c
                THEN At(Upper, CHOOSE i \in 1..26 : At(Lower, i) = c) ELSE c
Answer == SpeciesOf(name) # {}
CaseFree == SpeciesOf(name) = SpeciesOf([i \in 1..Len(name) |-> Swap(name[i])])
TwoWins == Candidates(name, 2) # {} => \A s \in SpeciesOf(name) : Len(s) = 2
OwnSymbol == \A i \in 1..Len(Elements) :
   LET e == Elements[i]
   IN  Elements[i] \in SpeciesOf([k \in 1..Len(e) |-> At(e, k)])
Grows == [][Candidates(name, 2) \subseteq Candidates(name', 2)]_name
Own == name = <<>> => OwnSymbol
=============================================================================
