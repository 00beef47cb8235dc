---------------------------- MODULE MCPathCodec ----------------------------
(* All texts over a small alphabet: parsing and printing are inverse.  Also  *)
(* the generator of the texts replayed into the code.                        *)
EXTENDS PathCodec, TLC, Json
CONSTANT MaxLen
VARIABLES text, k
Alphabet == {"A", "B", "-", "|"}
Init == text = "" /\ k = 0
Next == k < MaxLen /\ \E c \in Alphabet : text' = text \o c /\ k' = k + 1
Spec == Init /\ [][Next]_<<text, k>>
RoundTripText == Show(Parse(text)) = text
RoundTripList == GoodText(text) => Parse(Show(Parse(text))) = Parse(text)
Pieces == \A i \in 1..Len(Parse(text)) : \A j \in 1..Len(Parse(text)[i]) : ~HasSep(Parse(text)[i][j], 1)
Emit == PrintT("GEN " \o ToJson([t |-> text, p |-> Parse(text), good |-> GoodText(text)]))
=============================================================================
