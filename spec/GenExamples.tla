---------------------------- MODULE GenExamples ----------------------------
EXTENDS Examples, Json
CONSTANT Depth
VARIABLES s, hist
Some(S) == TLCEval(RandomElement(S))
Pick(S) == {Some(S)}
Shorts == {SCShort(m) : m \in LatticeTypes}
\* unknown names
Others == {"", "TRI1", "TRI2", "tria", "TRIb", "mclc6", "BCT3", "rhl3", "cub1", "hex ", " HEX", "orcf4", "TRI1c", "cub2",
           "1", "a", "b", "12345ab", "cP3", "aP1", "cp1", "CP1", "ap2", "oF4", "hR3", "mC4", "xx", "cP11", "c", "P", "oc", "tP2", "cI2", "mP2", "oP2", "hP3"}
RECURSIVE Mixed(_)
Mixed(t) == IF t = "" THEN "" ELSE LET c == SubSeq(t, 1, 1) IN (IF c \in DOMAIN SmallOf /\ Some({TRUE, FALSE}) THEN SmallOf[c] ELSE c) \o Mixed(SubSeq(t, 2, Len(t)))
Name(d) ==
  CASE d <= 5 -> Mixed(Some(Variations("sc"))) [] d <= 7 -> Mixed(Some(Shorts)) [] d <= 8 -> Some(Variations("sc"))
    [] d <= 12 -> Some(Variations("hpkot")) [] d <= 14 -> Some(LatticeTypes) [] d = 15 -> Small(Some(Variations("hpkot")))
    [] OTHER -> Some(Others)
Op(d) ==
  IF d <= 16 THEN [op |-> "get", conv |-> IF d <= 8 \/ (d = 16 /\ Some({TRUE, FALSE})) THEN "sc" ELSE "hpkot", name |-> TLCEval(Name(d)), inv |-> Some({TRUE, FALSE}), str |-> Some(1..25) # 1]
  ELSE [op |-> "change", i |-> Some(1..9), f |-> Some(1..4)]
GInit == s = <<>> /\ hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \E d \in Pick(1..22) : \E op \in {TLCEval(Op(d))} : hist' = Append(hist, op) /\ s' = Apply(s, op).s
GSpec == GInit /\ [][GNext]_<<s, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
