------------------------------ MODULE GenSugar ------------------------------
EXTENDS Sugar, TLC, Json
CONSTANT Depth
VARIABLES s, hist
Pick(S) == {RandomElement(S)}
\* no names of methods of dictionaries
Ks == {"names", "positions", "a", "b", "", "a b", "1x", "_private", "__names", "self", "None", "class", "dict", "Names", "key", "x.y"}
Few == {"a", "names", "_private"}
K(d) == IF RandomElement(1..3) = 1 THEN RandomElement(Ks) ELSE RandomElement(Few)
W(d) == RandomElement({"attr", "item"})
Op(d) ==
  LET i == RandomElement(1..4) IN
  CASE d \in 1..6 -> [op |-> "set", i |-> i, k |-> K(d), v |-> RandomElement(0..9), way |-> W(d), f |-> RandomElement(1..3)]
    [] d \in 7..10 -> [op |-> "get", i |-> i, k |-> K(d), way |-> W(d)]
    [] d \in 11..13 -> [op |-> "del", i |-> i, k |-> K(d), way |-> W(d), f |-> RandomElement(1..2)]
    [] d = 14 -> [op |-> "has", i |-> i, k |-> K(d), way |-> W(d)]
    [] d = 15 -> [op |-> "default", i |-> i, k |-> K(d), way |-> W(d)]
    [] d = 16 -> [op |-> "copy", i |-> i, way |-> W(d), f |-> RandomElement(1..4)]
    [] d = 17 -> [op |-> "add", i |-> i, way |-> W(d)]
    [] d = 18 -> [op |-> "remove", i |-> i, way |-> W(d)]
    [] d = 19 -> [op |-> "bad", i |-> i, way |-> W(d), f |-> RandomElement(1..6)]
GInit == s = Start /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \E d \in Pick(1..19) : \E op0 \in {TLCEval(Op(d))} :
              LET op == IF op0.op \in {"add", "remove", "copy"} /\ Len(s) >= 4 THEN [op |-> "get", i |-> op0.i, k |-> "a", way |-> op0.way] ELSE op0
              IN  hist' = Append(hist, op) /\ s' = Step(s, op).s
GSpec == GInit /\ [][GNext]_<<s, hist>>
Good == Consistent(s)
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
