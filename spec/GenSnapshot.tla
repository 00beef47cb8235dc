---------------------------- MODULE GenSnapshot -----------------------------
(* Random histories of the Snapshot machine, to be replayed into wulfric.     *)
EXTENDS Snapshot, TLC, Json
CONSTANT Depth
VARIABLES s, hist
Pick(S) == {RandomElement(S)}
Funs == {"conv-hpkot", "conv-sc", "conv-spglib", "prim-hpkot", "prim-sc", "prim-spglib", "prim-spglib", "path-hpkot", "path-sc",
         "symbol", "variation", "kpoints-hpkot", "kpoints-sc"}
Op(d) ==
  CASE d <= 4 -> [op |-> "set", part |-> RandomElement(1..3), v |-> RandomElement(1..2)]
    [] d = 5 -> [op |-> "form", form |-> RandomElement({"array", "list", "tuple"}), keys |-> RandomElement({"types", "names", "species", "tuple", "all"})]
    [] d \in 6..7 -> [op |-> "data"]
    [] d = 8 -> [op |-> "spoil"]
    [] d = 9 -> [op |-> "assign", d |-> RandomElement(1..3)]
    [] OTHER -> [op |-> "call", f |-> RandomElement(Funs), d |-> RandomElement({0, 1, 2, 3, 1, 2, 3, 9})]
GInit == s = Empty /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ \E d \in Pick(1..20) : \E op \in {TLCEval(Op(d))} :
       hist' = Append(hist, op) /\ s' = Step(s, op)
GSpec == GInit /\ [][GNext]_<<s, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
