---------------------------- MODULE Conventions ----------------------------
(***************************************************************************)
(* The rules of the conventions of Hinuma et al. ("hpkot") and of Setyawan  *)
(* and Curtarolo ("sc") as exact decisions of a metric.  G is the integer   *)
(* Gram matrix of the conventional cell (any common unit).                  *)
(***************************************************************************)
EXTENDS Bravais, Lat, Big

\* reciprocal Gram matrix of G, up to the positive factor Det(G): adjugate
RGram(G) == Adj(G)
Reduced(G) == LET g == GCDM(G) IN IF g <= 1 THEN G ELSE MDiv(G, g)

(* ------------------------------ metric rules ----------------------------- *)
Right(G) == G[1][2] = 0 /\ G[1][3] = 0 /\ G[2][3] = 0
\* |2 x| <= min(y, z)
HalfOf(x, y, z) == 2 * Abs(x) <= y /\ 2 * Abs(x) <= z
\* Niggli reduced up to the order and the signs of the vectors
\* (necessary inequalities of the reduction)
NiggliUpToOrder(R) ==
  /\ HalfOf(R[1][2], R[1][1], R[2][2])
  /\ HalfOf(R[1][3], R[1][1], R[3][3])
  /\ HalfOf(R[2][3], R[2][2], R[3][3])
  /\ (R[1][2] <= 0 /\ R[1][3] <= 0 /\ R[2][3] <= 0)
       => LET s == Abs(R[1][2]) + Abs(R[1][3]) + Abs(R[2][3])
              mx == Max2(R[1][1], Max2(R[2][2], R[3][3]))
          IN  2 * s <= R[1][1] + R[2][2] + R[3][3] - mx
SameSigns(R) ==
  \/ R[1][2] >= 0 /\ R[1][3] >= 0 /\ R[2][3] >= 0
  \/ R[1][2] <= 0 /\ R[1][3] <= 0 /\ R[2][3] <= 0
\* cos^2 of the angle of (i, j) at most that of (i, k): r_ij^2 r_kk <= r_ik^2 r_jj
CosLe(R, i, j, k) ==
  BLe(BMul(BMul(BI(R[i][j]), BI(R[i][j])), BI(R[k][k])),
      BMul(BMul(BI(R[i][k]), BI(R[i][k])), BI(R[j][j])))
GammaExtremal(R) == CosLe(R, 1, 2, 3) /\ CosLe(R, 2, 1, 3)
GammaSmallest(R) == Abs(R[1][2]) <= Abs(R[1][3]) /\ Abs(R[1][2]) <= Abs(R[2][3])

StdRules(f, G) ==
  CASE f = "c" -> Right(G) /\ G[1][1] = G[2][2] /\ G[2][2] = G[3][3]
    [] f = "t" -> Right(G) /\ G[1][1] = G[2][2]
    [] f = "o" -> Right(G)
    [] f = "h" -> /\ G[1][1] = G[2][2] /\ G[1][3] = 0 /\ G[2][3] = 0
                  /\ 2 * G[1][2] = -G[1][1]
    [] f = "m" -> G[1][2] = 0 /\ G[2][3] = 0 /\ G[1][3] <= 0
    [] f = "a" -> TRUE
HPKOTRules(lt, G) ==
  /\ StdRules(SubSeq(lt, 1, 1), G)
  /\ lt = "aP" => LET R == Reduced(RGram(G))
                  IN  NiggliUpToOrder(R) /\ SameSigns(R) /\ GammaSmallest(R)
SCRules(lt, G) ==
  CASE lt = "hR" -> /\ G[1][1] = G[2][2] /\ G[2][2] = G[3][3]
                    /\ G[1][2] = G[1][3] /\ G[1][3] = G[2][3]
    [] lt \in {"oP", "oF", "oI"} -> Right(G) /\ G[1][1] <= G[2][2] /\ G[2][2] <= G[3][3]
    [] lt \in {"oC", "oA"} -> Right(G) /\ G[1][1] <= G[2][2]
    [] lt = "mP" -> G[1][2] = 0 /\ G[1][3] = 0 /\ G[2][3] >= 0 /\ G[2][2] <= G[3][3]
    [] lt = "mC" -> G[1][2] = 0 /\ G[1][3] = 0 /\ G[2][3] >= 0
    [] lt = "aP" -> LET R == Reduced(RGram(G)) IN SameSigns(R) /\ GammaExtremal(R)
    [] OTHER -> StdRules(SubSeq(lt, 1, 1), G)
MetricRules(conv, lt, G) ==
  IF conv = "sc" THEN SCRules(lt, G)
  ELSE IF conv = "hpkot" THEN HPKOTRules(lt, G)
  ELSE StdRules(SubSeq(lt, 1, 1), G)

(* ---------------------- axes fixed by the symmetry ------------------------ *)
\* The rotations R of the crystal act on columns, cell rows are in the same basis.
MCol(R, v) == [i \in I3 |-> R[i][1] * v[1] + R[i][2] * v[2] + R[i][3] * v[3]]
\* monoclinic: the axis of the rotation (or normal of the mirror plane), whatever
\* the metric is by accident; tetragonal and hexagonal: the main axis is c
UniqueAxis(conv, lt, cell, rots) ==
  LET f == SubSeq(lt, 1, 1)
  IN  CASE f = "m" -> LET u == cell[IF conv = "sc" THEN 1 ELSE 2]
                      IN  \A k \in 1..Len(rots) : MCol(rots[k], u) = VScale(Det(rots[k]), u)
        [] f = "t" \/ lt = "hP" \/ (lt = "hR" /\ conv # "sc") ->
             \A k \in 1..Len(rots) : LET v == MCol(rots[k], cell[3])
                                      IN  v = cell[3] \/ v = VScale(-1, cell[3])
        [] OTHER -> TRUE

(* ----------------------------- classification ---------------------------- *)
\* compare x with y exactly; "~" when they differ by less than one percent
\* (there the tolerances of the implementation may decide), "=" when equal
Cmp(x, y) ==
  IF x = y THEN "="
  ELSE LET d == Abs(x - y)
           m == Max2(Abs(x), Abs(y))
       IN  IF d <= m \div 100 THEN "~" ELSE IF x < y THEN "<" ELSE ">"
\* two-way border without a variation of its own
Two(x, y, less, more) ==
  CASE Cmp(x, y) = "<" -> {less} [] Cmp(x, y) = ">" -> {more} [] OTHER -> {less, more}
\* three-way border: equality is a variation of its own
Three(x, y, less, eq, more) ==
  CASE Cmp(x, y) = "<" -> {less} [] Cmp(x, y) = ">" -> {more}
    [] Cmp(x, y) = "=" -> {eq} [] OTHER -> {less, eq, more}

HPKOTSymbols(sg, G) ==
  LET lt == LatticeType(sg)
      A == G[1][1]
      B == G[2][2]
      C == G[3][3]
      X == G[1][3]
  IN
  CASE lt \in {"cI", "tP", "oP", "mP"} -> {lt \o "1"}
    [] lt \in {"cP", "cF"} -> {lt \o (IF sg <= 206 THEN "1" ELSE "2")}
    [] lt = "hP" -> {IF sg \in 143..149 \cup 159..163 \cup {151, 153, 157}
                     THEN "hP1" ELSE "hP2"}
    [] lt = "tI" -> Two(C, A, "tI1", "tI2")
    [] lt = "oF" ->  \* 1/a^2 > 1/b^2 + 1/c^2, 1/c^2 > 1/a^2 + 1/b^2
         LET p == Cmp(B * C, A * C + A * B)
             r == Cmp(A * B, B * C + A * C)
         IN  IF p = ">" THEN {"oF1"} ELSE IF r = ">" THEN {"oF2"}
             ELSE IF p = "<" /\ r = "<" THEN {"oF3"}
             ELSE IF p # "<" THEN {"oF1", "oF3"} ELSE {"oF2", "oF3"}
    [] lt = "oI" ->
         {s \in {"oI1", "oI2", "oI3"} :
            LET i == CASE s = "oI1" -> 3 [] s = "oI2" -> 1 [] s = "oI3" -> 2
            IN  \A j \in I3 : Cmp(G[i][i], G[j][j]) # "<"}
    [] lt = "oC" -> Two(A, B, "oC1", "oC2")
    [] lt = "oA" -> Two(B, C, "oA1", "oA2")
    [] lt = "hR" -> Two(3 * A, 2 * C, "hR1", "hR2")
    [] lt = "mC" ->
         LET s2 == A * C - X * X   \* a^2 c^2 sin^2(beta)
             p == Cmp(B * C, s2)
             \* mC3 wants an obtuse angle: with a right one only mC1 and mC2 meet
             q == Two(s2 - X * B, B * C, "mC2", "mC3") \ (IF X = 0 THEN {"mC3"} ELSE {})
         IN  IF p = "<" THEN {"mC1"} ELSE IF p = ">" THEN q ELSE {"mC1"} \cup q
    [] lt = "aP" ->
         LET R == RGram(G)
         IN  (IF R[1][2] <= 0 /\ R[1][3] <= 0 /\ R[2][3] <= 0 THEN {"aP2"} ELSE {})
             \cup (IF R[1][2] > 0 /\ R[1][3] > 0 /\ R[2][3] > 0
                   THEN {"aP3"} ELSE {})
             \* a right angle is computed with rounding errors
             \cup (IF R[1][2] = 0 \/ R[1][3] = 0 \/ R[2][3] = 0 THEN {"aP2", "aP3"} ELSE {})

\* primitive Gram (times 36) from the conventional one
PrimGram36(conv, lt, G) ==
  LET M == Transp(Matrix6(conv, lt)) IN MM(MM(M, G), Transp(M))
\* "ValueError": the documented refusal of a degenerate metric
SCVariations(sg, G) ==
  LET lt == LatticeType(sg)
      A == G[1][1]
      B == G[2][2]
      C == G[3][3]
      D == G[2][3]
  IN
  CASE lt = "cP" -> {"CUB"} [] lt = "cF" -> {"FCC"} [] lt = "cI" -> {"BCC"}
    [] lt = "tP" -> {"TET"} [] lt = "oP" -> {"ORC"} [] lt = "oI" -> {"ORCI"}
    [] lt \in {"oC", "oA"} -> {"ORCC"} [] lt = "hP" -> {"HEX"} [] lt = "mP" -> {"MCL"}
    [] lt = "tI" -> IF Cmp(C, A) = "<" THEN {"BCT1"} ELSE IF Cmp(C, A) = ">" THEN {"BCT2"}
                    ELSE {"BCT1", "BCT2", "ValueError"}
    [] lt = "oF" ->
         IF Cmp(A, B) = "<" /\ Cmp(B, C) = "<"
         THEN Three(B * C, A * C + A * B, "ORCF2", "ORCF3", "ORCF1")
         ELSE {"ORCF1", "ORCF2", "ORCF3", "ValueError"}
    [] lt = "hR" -> IF 100 * Abs(D) > A THEN (IF D > 0 THEN {"RHL1"} ELSE {"RHL2"})
                    ELSE {"RHL1", "RHL2", "ValueError"}
    [] lt = "mC" ->
         LET R == Adj(Reduced(PrimGram36("sc", lt, G)))
             k == R[1][2]
             near == k # 0 /\ Abs(k) <= R[1][1] \div 100
             q == Three(D * A + B * C - D * D, C * A, "MCLC3", "MCLC4", "MCLC5")
         IN  IF k = 0 THEN {"MCLC2"}
             ELSE IF near THEN {"MCLC1", "MCLC2"} \cup q
             ELSE IF k < 0 THEN {"MCLC1"} ELSE q
    [] lt = "aP" ->
         LET R == RGram(G)
             z(i, j) == R[i][j] = 0
         IN  IF z(1, 3) \/ z(2, 3) THEN {"TRI1a", "TRI1b", "TRI2a", "TRI2b", "ValueError"}
             ELSE IF z(1, 2) THEN (IF R[1][3] < 0 THEN {"TRI2a"} ELSE {"TRI2b"})
             ELSE IF R[1][3] < 0 THEN {"TRI1a"} ELSE {"TRI1b"}

(* --------- metrics at which the choice of the cell is not unique ---------- *)
\* decided by rounding errors: other descriptions may get the other choice
\* triclinic: which pair of reciprocal vectors is the first is a tie
PairTie(R) ==
  LET m == Min2(Abs(R[1][2]), Min2(Abs(R[1][3]), Abs(R[2][3])))
  IN  Cardinality({p \in {<<1, 2>>, <<1, 3>>, <<2, 3>>} : Abs(R[p[1]][p[2]]) = m}) > 1
AngleTie(R) ==
  LET tie(i, j, k) == CosLe(R, i, j, k) /\ CosLe(R, i, k, j)
  IN  tie(1, 2, 3) \/ tie(2, 1, 3) \/ tie(3, 1, 2)
Degenerate(sg, H, S) ==
  \/ LatticeType(sg) = "aP" /\ (PairTie(Reduced(RGram(H))) \/ AngleTie(Reduced(RGram(S))))
  \/ Cardinality(HPKOTSymbols(sg, H)) > 1
  \/ Cardinality(SCVariations(sg, S)) > 1
  \/ SCVariations(sg, S) \cap {"ORCF3", "MCLC2", "MCLC4", "TRI2a", "TRI2b"} # {}
Borderline(conv, sg, G) ==
  IF conv = "sc" THEN Cardinality(SCVariations(sg, G)) > 1
  ELSE IF conv = "hpkot" THEN Cardinality(HPKOTSymbols(sg, G)) > 1 ELSE FALSE
=============================================================================
