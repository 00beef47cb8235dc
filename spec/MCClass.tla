------------------------------ MODULE MCClass ------------------------------
(* The classification itself: for every metric of every lattice type in a    *)
(* small range there is at least one variation, exactly one off the borders, *)
(* every documented variation is reached and has a table and a path of       *)
(* defined points.                                                           *)
EXTENDS KPoints, FiniteSets, TLC
VARIABLES sg, G
SG == {1, 3, 5, 16, 21, 22, 23, 38, 75, 79, 143, 146, 150, 195, 196, 197, 207, 209}
R == 1..7
S == -3..3
Rh(a, d) == <<<<a, d, d>>, <<d, a, d>>, <<d, d, a>>>>
Diag(a, b, c) == <<<<a, 0, 0>>, <<0, b, 0>>, <<0, 0, c>>>>
Hex(a, c) == <<<<2 * a, -a, 0>>, <<-a, 2 * a, 0>>, <<0, 0, c>>>>
Mono(a, b, c, x) == <<<<a, 0, x>>, <<0, b, 0>>, <<x, 0, c>>>>
Tri(a, b, c, x, y, z) == <<<<a, z, y>>, <<z, b, x>>, <<y, x, c>>>>
PosDef(M) == M[1][1] > 0 /\ M[1][1] * M[2][2] > M[1][2] * M[1][2] /\ Det(M) > 0
\* HPKOT/spglib metrics of a space group
Metrics(n) ==
  CASE Family(n) = "c" -> {Diag(a, a, a) : a \in R}
    [] Family(n) = "t" -> {Diag(a, a, c) : a, c \in R}
    [] Family(n) = "o" -> {Diag(a, b, c) : a, b, c \in R}
    [] Family(n) = "h" -> {Hex(a, c) : a \in 1..12, c \in 1..24}
    [] Family(n) = "m" -> {Mono(a, b, c, x) : a, b, c \in R, x \in -5..0}
    [] Family(n) = "a" -> {Tri(a, b, c, x, y, z) : a, b, c \in {2, 3, 5}, x, y, z \in S}
SCMetrics(n) ==
  CASE LatticeType(n) = "hR" -> {Rh(a, d) : a \in 1..9, d \in -4..8}
    [] Family(n) = "m" -> {<<<<a, 0, 0>>, <<0, b, d>>, <<0, d, c>>>> : a, b, c \in R, d \in 0..5}
    [] OTHER -> Metrics(n)
Init == sg \in SG /\ G \in {M \in Metrics(sg) \cup SCMetrics(sg) : PosDef(M)}
Next == UNCHANGED <<sg, G>>
Spec == Init /\ [][Next]_<<sg, G>>
InH == HPKOTRules(LatticeType(sg), G)
InS == SCRules(LatticeType(sg), G)
Total == /\ InH => HPKOTSymbols(sg, G) # {}
         /\ InS => SCVariations(sg, G) # {}
Named == /\ InH => HPKOTSymbols(sg, G) \subseteq Variations("hpkot")
         /\ InS => SCVariations(sg, G) \subseteq Variations("sc") \cup {"ValueError"}
Tables == \A v \in (IF InH THEN HPKOTSymbols(sg, G) ELSE {})
                   \cup ((IF InS THEN SCVariations(sg, G) ELSE {}) \ {"ValueError"}) :
            /\ PathNames(PathOf(v)) \subseteq Names(Tab(TableOf(v)))
            /\ "GAMMA" \in Names(Tab(TableOf(v)))
            /\ Len(Tab(TableOf(v))) = Cardinality(Names(Tab(TableOf(v))))
            /\ \A i \in 1..Len(PathOf(v)) : Len(PathOf(v)[i]) >= 2
=============================================================================
