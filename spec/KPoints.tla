------------------------------ MODULE KPoints ------------------------------
(***************************************************************************)
(* High-symmetry points and paths of both conventions as exact functions of *)
(* the metric (integer Gram matrix G of the conventional cell).             *)
(* Every parameter of the tables is a rational function of the entries of G:*)
(*   (a/c) cos(beta) = G13/G33,  a c cos(beta) = G13,                       *)
(*   sin(beta)^2 = (G11 G33 - G13^2) / (G11 G33),  and so on.               *)
(***************************************************************************)
EXTENDS Conventions, KTables

\* table of a lattice variation
TableOf(v) ==
  CASE v = "CUB" -> 2 [] v = "FCC" -> 3 [] v = "BCC" -> 4 [] v = "TET" -> 5
    [] v = "BCT1" -> 6 [] v = "BCT2" -> 7 [] v = "ORC" -> 8
    [] v \in {"ORCF1", "ORCF3"} -> 9 [] v = "ORCF2" -> 10 [] v = "ORCI" -> 11
    [] v = "ORCC" -> 12 [] v = "HEX" -> 13 [] v = "RHL1" -> 14 [] v = "RHL2" -> 15
    [] v = "MCL" -> 16 [] v \in {"MCLC1", "MCLC2"} -> 17
    [] v \in {"MCLC3", "MCLC4"} -> 18 [] v = "MCLC5" -> 19
    [] v \in {"TRI1a", "TRI2a"} -> 20 [] v \in {"TRI1b", "TRI2b"} -> 21
    [] v \in {"cP1", "cP2"} -> 69 [] v \in {"cF1", "cF2"} -> 70 [] v = "cI1" -> 71
    [] v = "tP1" -> 72 [] v = "tI1" -> 73 [] v = "tI2" -> 74 [] v = "oP1" -> 75
    [] v = "oF1" -> 76 [] v = "oF2" -> 77 [] v = "oF3" -> 78
    [] v = "oI1" -> 79 [] v = "oI2" -> 80 [] v = "oI3" -> 81
    [] v \in {"oC1", "oA1"} -> 82 [] v \in {"oC2", "oA2"} -> 83
    [] v \in {"hP1", "hP2"} -> 84 [] v = "hR1" -> 85 [] v = "hR2" -> 86
    [] v = "mP1" -> 87 [] v = "mC1" -> 88 [] v = "mC2" -> 89 [] v = "mC3" -> 90
    [] v = "aP2" -> 91 [] v = "aP3" -> 92
Variations(conv) ==
  IF conv = "sc"
  THEN {"CUB", "FCC", "BCC", "TET", "BCT1", "BCT2", "ORC", "ORCF1", "ORCF2", "ORCF3",
        "ORCI", "ORCC", "HEX", "RHL1", "RHL2", "MCL", "MCLC1", "MCLC2", "MCLC3",
        "MCLC4", "MCLC5", "TRI1a", "TRI2a", "TRI1b", "TRI2b"}
  ELSE {"cP1", "cP2", "cF1", "cF2", "cI1", "tP1", "tI1", "tI2", "oP1", "oF1", "oF2",
        "oF3", "oI1", "oI2", "oI3", "oC1", "oC2", "oA1", "oA2", "hP1", "hP2", "hR1",
        "hR2", "mP1", "mC1", "mC2", "mC3", "aP2", "aP3"}

(* ------------------------------ parameters ------------------------------- *)
\* the parameters of the table of variation v at metric G: <<name, value>> pairs
Params(v, G) ==
  LET t == TableOf(v)
      A == QI(G[1][1])
      B == QI(G[2][2])
      C == QI(G[3][3])
      X == QI(G[1][3])   \* a c cos(beta)
      D == QI(G[2][3])   \* b c cos(alpha)
      h(n, d) == BR(n, d)
      one == QOne
      \* (1 + x) / 4
      quart(x) == QMul(h(1, 4), QAdd(one, x))
      r(x, y) == QDiv(x, y)
      sb2 == QDiv(QSub(QMul(A, C), QMul(X, X)), QMul(A, C))   \* sin^2 beta
      sa2 == QDiv(QSub(QMul(B, C), QMul(D, D)), QMul(B, C))   \* sin^2 alpha
  IN
  CASE t \in {6, 73} -> <<<<"eta", quart(r(C, A))>>>>
    [] t \in {7, 74} -> <<<<"eta", quart(r(A, C))>>, <<"zeta", QMul(h(1, 2), r(A, C))>>>>
    [] t \in {9, 76} -> <<<<"zeta", quart(QSub(r(A, B), r(A, C)))>>,
                          <<"eta", quart(QAdd(r(A, B), r(A, C)))>>>>
    [] t = 77 -> <<<<"zeta", quart(QSub(r(C, A), r(C, B)))>>,
                   <<"eta", quart(QAdd(r(C, A), r(C, B)))>>>>
    [] t \in {10, 78} -> <<<<"eta", quart(QSub(r(A, B), r(A, C)))>>,
                           <<"delta", quart(QSub(r(B, A), r(B, C)))>>,
                           <<"phi", quart(QSub(r(C, B), r(C, A)))>>>>
    [] t \in {11, 79} -> <<<<"zeta", quart(r(A, C))>>, <<"eta", quart(r(B, C))>>,
                           <<"delta", QMul(h(1, 4), r(QSub(B, A), C))>>,
                           <<"mu", QMul(h(1, 4), r(QAdd(B, A), C))>>>>
    [] t = 80 -> <<<<"zeta", quart(r(B, A))>>, <<"eta", quart(r(C, A))>>,
                   <<"delta", QMul(h(1, 4), r(QSub(C, B), A))>>,
                   <<"mu", QMul(h(1, 4), r(QAdd(C, B), A))>>>>
    [] t = 81 -> <<<<"zeta", quart(r(C, B))>>, <<"eta", quart(r(A, B))>>,
                   <<"delta", QMul(h(1, 4), r(QSub(A, C), B))>>,
                   <<"mu", QMul(h(1, 4), r(QAdd(A, C), B))>>>>
    [] t = 12 -> <<<<"zeta", quart(r(A, B))>>>>
    [] t = 82 -> <<<<"zeta", IF v = "oA1" THEN quart(r(B, C)) ELSE quart(r(A, B))>>>>
    [] t = 83 -> <<<<"zeta", IF v = "oA2" THEN quart(r(C, B)) ELSE quart(r(B, A))>>>>
    [] t = 85 -> LET delta == QMul(h(1, 4), r(A, C))
                 IN  <<<<"delta", delta>>, <<"eta", QSub(h(5, 6), QMul(QI(2), delta))>>,
                       <<"nu", QAdd(h(1, 3), delta)>>>>
    [] t = 86 -> LET zeta == QSub(h(1, 6), QMul(h(1, 9), r(C, A)))
                 IN  <<<<"zeta", zeta>>, <<"eta", QSub(h(1, 2), QMul(QI(2), zeta))>>,
                       <<"nu", QAdd(h(1, 2), zeta)>>>>
    [] t = 14 -> LET x == r(D, A)
                     eta == QDiv(QAdd(one, QMul(QI(4), x)), QAdd(QI(2), QMul(QI(4), x)))
                 IN  <<<<"eta", eta>>, <<"nu", QSub(h(3, 4), QMul(h(1, 2), eta))>>>>
    [] t = 15 -> \* 1 / (2 tan^2(alpha/2)) = (1 + cos alpha) / (2 (1 - cos alpha))
                 LET x == r(D, A)
                     eta == QDiv(QAdd(one, x), QMul(QI(2), QSub(one, x)))
                 IN  <<<<"eta", eta>>, <<"nu", QSub(h(3, 4), QMul(h(1, 2), eta))>>>>
    [] t = 87 -> LET eta == QDiv(QAdd(one, r(X, C)), QMul(QI(2), sb2))
                 IN  <<<<"eta", eta>>, <<"nu", QAdd(h(1, 2), QMul(eta, r(X, A)))>>>>
    [] t = 88 -> LET zeta == QDiv(QAdd(QI(2), r(X, C)), QMul(QI(4), sb2))
                     psi == QSub(h(3, 4), QDiv(r(B, A), QMul(QI(4), sb2)))
                 IN  <<<<"zeta", zeta>>,
                       <<"eta", QSub(h(1, 2), QMul(QMul(QI(2), zeta), r(X, A)))>>,
                       <<"psi", psi>>,
                       <<"phi", QSub(psi, QMul(QSub(h(3, 4), psi), r(X, C)))>>>>
    [] t = 89 -> LET mu == quart(r(A, B))
                     delta == QNeg(QMul(h(1, 2), r(X, B)))
                     zeta == QMul(h(1, 4), QAdd(r(A, B), QDiv(QAdd(one, r(X, C)), sb2)))
                     eta == QSub(h(1, 2), QMul(QMul(QI(2), zeta), r(X, A)))
                 IN  <<<<"mu", mu>>, <<"delta", delta>>, <<"zeta", zeta>>, <<"eta", eta>>,
                       <<"phi", QAdd(one, QSub(zeta, QMul(QI(2), mu)))>>,
                       <<"psi", QSub(eta, QMul(QI(2), delta))>>>>
    [] t = 90 -> LET zeta == QMul(h(1, 4), QAdd(r(A, B), QDiv(QAdd(one, r(X, C)), sb2)))
                     eta == QSub(h(1, 2), QMul(QMul(QI(2), zeta), r(X, A)))
                     mu == QAdd(QMul(h(1, 2), eta),
                                QAdd(QMul(h(1, 4), r(A, B)), QMul(h(1, 2), r(X, B))))
                     nu == QSub(QMul(QI(2), mu), zeta)
                     omega == QMul(QMul(h(1, 2), r(C, X)),
                                   QAdd(QSub(one, QMul(QI(4), nu)), QMul(r(A, B), sb2)))
                 IN  <<<<"zeta", zeta>>, <<"rho", QSub(one, QMul(zeta, r(B, A)))>>,
                       <<"eta", eta>>, <<"mu", mu>>, <<"nu", nu>>, <<"omega", omega>>,
                       <<"delta", QSub(QSub(QMul(h(1, 2), omega), h(1, 4)),
                                       QMul(zeta, r(X, A)))>>>>
    [] t = 16 -> LET eta == QDiv(QSub(one, r(D, C)), QMul(QI(2), sa2))
                 IN  <<<<"eta", eta>>, <<"nu", QSub(h(1, 2), QMul(eta, r(D, B)))>>>>
    [] t = 17 -> LET zeta == QDiv(QSub(QI(2), r(D, C)), QMul(QI(4), sa2))
                     psi == QSub(h(3, 4), QDiv(r(A, B), QMul(QI(4), sa2)))
                 IN  <<<<"zeta", zeta>>,
                       <<"eta", QAdd(h(1, 2), QMul(QMul(QI(2), zeta), r(D, B)))>>,
                       <<"psi", psi>>,
                       <<"phi", QAdd(psi, QMul(QSub(h(3, 4), psi), r(D, C)))>>>>
    [] t = 18 -> LET mu == quart(r(B, A))
                     delta == QMul(h(1, 2), r(D, A))
                     zeta == QAdd(QSub(mu, h(1, 4)),
                                  QDiv(QSub(one, r(D, C)), QMul(QI(4), sa2)))
                     eta == QAdd(h(1, 2), QMul(QMul(QI(2), zeta), r(D, B)))
                 IN  <<<<"mu", mu>>, <<"delta", delta>>, <<"zeta", zeta>>, <<"eta", eta>>,
                       <<"phi", QAdd(one, QSub(zeta, QMul(QI(2), mu)))>>,
                       <<"psi", QSub(eta, QMul(QI(2), delta))>>>>
    [] t = 19 -> LET zeta == QMul(h(1, 4), QAdd(r(B, A), QDiv(QSub(one, r(D, C)), sa2)))
                     eta == QAdd(h(1, 2), QMul(QMul(QI(2), zeta), r(D, B)))
                     mu == QAdd(QMul(h(1, 2), eta),
                                QSub(QMul(h(1, 4), r(B, A)), QMul(h(1, 2), r(D, A))))
                     nu == QSub(QMul(QI(2), mu), zeta)
                     omega == QMul(QMul(h(1, 2), r(C, D)),
                                   QSub(QSub(QMul(QI(4), nu), one), QMul(r(B, A), sa2)))
                 IN  <<<<"zeta", zeta>>, <<"eta", eta>>, <<"mu", mu>>, <<"nu", nu>>,
                       <<"rho", QSub(one, QMul(zeta, r(A, B)))>>, <<"omega", omega>>,
                       <<"delta", QSub(QAdd(QMul(zeta, r(D, B)), QMul(h(1, 2), omega)),
                                       h(1, 4))>>>>
    [] OTHER -> <<>>

\* parameters in units of 10^-6, with the constant one
Micro == 6
Unit == 1000000
FixedParams(v, G) ==
  LET p == Params(v, G)
  IN  <<<<"1", Unit>>>> \o [i \in 1..Len(p) |-> <<p[i][1], QFixed(p[i][2], Micro)>>]
Lookup(fp, name) == LET i == CHOOSE i \in 1..Len(fp) : fp[i][1] = name IN fp[i][2]
RECURSIVE Form(_, _, _)
Form(lf, fp, i) ==
  IF i > Len(lf) THEN 0
  ELSE (lf[i][2] * Lookup(fp, lf[i][1])) \div lf[i][3] + Form(lf, fp, i + 1)
\* coordinates of point pt of the table, in units of 10^-6, rounding error < 10
Coord(pt, fp) == [k \in I3 |-> Form(pt.c[k], fp, 1)]
Names(t) == {t[i].n : i \in 1..Len(t)}

(* --------------------------------- paths --------------------------------- *)
PathOf(v) ==
  CASE v = "cP1" -> <<<<"GAMMA", "X", "M", "GAMMA", "R", "X">>, <<"R", "M", "X1">>>>
    [] v = "cP2" -> <<<<"GAMMA", "X", "M", "GAMMA", "R", "X">>, <<"R", "M">>>>
    [] v = "cF1" -> <<<<"GAMMA", "X", "U">>, <<"K", "GAMMA", "L", "W", "X", "W2">>>>
    [] v = "cF2" -> <<<<"GAMMA", "X", "U">>, <<"K", "GAMMA", "L", "W", "X">>>>
    [] v = "cI1" -> <<<<"GAMMA", "H", "N", "GAMMA", "P", "H">>, <<"P", "N">>>>
    [] v = "tP1" -> <<<<"GAMMA", "X", "M", "GAMMA", "Z", "R", "A", "Z">>, <<"X", "R">>, <<"M", "A">>>>
    [] v = "tI1" -> <<<<"GAMMA", "X", "M", "GAMMA", "Z">>, <<"Z0", "M">>, <<"X", "P", "N", "GAMMA">>>>
    [] v = "tI2" -> <<<<"GAMMA", "X", "P", "N", "GAMMA", "M", "S">>, <<"S0", "GAMMA">>, <<"X", "R">>, <<"G", "M">>>>
    [] v = "oP1" -> <<<<"GAMMA", "X", "S", "Y", "GAMMA", "Z", "U", "R", "T", "Z">>, <<"X", "U">>, <<"Y", "T">>, <<"S", "R">>>>
    [] v = "oF1" -> <<<<"GAMMA", "Y", "T", "Z", "GAMMA", "SIGMA0">>, <<"U0", "T">>, <<"Y", "C0">>, <<"A0", "Z">>, <<"GAMMA", "L">>>>
    [] v = "oF2" -> <<<<"GAMMA", "T", "Z", "Y", "GAMMA", "LAMBDA0">>, <<"Q0", "Z">>, <<"T", "G0">>, <<"H0", "Y">>, <<"GAMMA", "L">>>>
    [] v = "oF3" -> <<<<"GAMMA", "Y", "C0">>, <<"A0", "Z", "B0">>, <<"D0", "T", "G0">>, <<"H0", "Y">>, <<"T", "GAMMA", "Z">>, <<"GAMMA", "L">>>>
    [] v = "oI1" -> <<<<"GAMMA", "X", "F2">>, <<"SIGMA0", "GAMMA", "Y0">>, <<"U0", "X">>, <<"GAMMA", "R", "W", "S", "GAMMA", "T", "W">>>>
    [] v = "oI2" -> <<<<"GAMMA", "X", "U2">>, <<"Y0", "GAMMA", "LAMBDA0">>, <<"G2", "X">>, <<"GAMMA", "R", "W", "S", "GAMMA", "T", "W">>>>
    [] v = "oI3" -> <<<<"GAMMA", "X", "F0">>, <<"SIGMA0", "GAMMA", "LAMBDA0">>, <<"G0", "X">>, <<"GAMMA", "R", "W", "S", "GAMMA", "T", "W">>>>
    [] v = "oC1" -> <<<<"GAMMA", "Y", "C0">>, <<"SIGMA0", "GAMMA", "Z", "A0">>, <<"E0", "T", "Y">>, <<"GAMMA", "S", "R", "Z", "T">>>>
    [] v = "oC2" -> <<<<"GAMMA", "Y", "F0">>, <<"DELTA0", "GAMMA", "Z", "B0">>, <<"G0", "T", "Y">>, <<"GAMMA", "S", "R", "Z", "T">>>>
    [] v = "oA1" -> <<<<"GAMMA", "Y", "C0">>, <<"SIGMA0", "GAMMA", "Z", "A0">>, <<"E0", "T", "Y">>, <<"GAMMA", "S", "R", "Z", "T">>>>
    [] v = "oA2" -> <<<<"GAMMA", "Y", "F0">>, <<"DELTA0", "GAMMA", "Z", "B0">>, <<"G0", "T", "Y">>, <<"GAMMA", "S", "R", "Z", "T">>>>
    [] v = "hP1" -> <<<<"GAMMA", "M", "K", "GAMMA", "A", "L", "H", "A">>, <<"L", "M">>, <<"H", "K", "H2">>>>
    [] v = "hP2" -> <<<<"GAMMA", "M", "K", "GAMMA", "A", "L", "H", "A">>, <<"L", "M">>, <<"H", "K">>>>
    [] v = "hR1" -> <<<<"GAMMA", "T", "H2">>, <<"H0", "L", "GAMMA", "S0">>, <<"S2", "F", "GAMMA">>>>
    [] v = "hR2" -> <<<<"GAMMA", "L", "T", "P0">>, <<"P2", "GAMMA", "F">>>>
    [] v = "mP1" -> <<<<"GAMMA", "Z", "D", "B", "GAMMA", "A", "E", "Z", "C2", "Y2", "GAMMA">>>>
    [] v = "mC1" -> <<<<"GAMMA", "C">>, <<"C2", "Y2", "GAMMA", "M2", "D">>, <<"D2", "A", "GAMMA">>, <<"L2", "GAMMA", "V2">>>>
    [] v = "mC2" -> <<<<"GAMMA", "Y", "M", "A", "GAMMA">>, <<"L2", "GAMMA", "V2">>>>
    [] v = "mC3" -> <<<<"GAMMA", "A", "I2">>, <<"I", "M2", "GAMMA", "Y">>, <<"L2", "GAMMA", "V2">>>>
    [] v = "aP2" -> <<<<"GAMMA", "X">>, <<"Y", "GAMMA", "Z">>, <<"R", "GAMMA", "T">>, <<"U", "GAMMA", "V">>>>
    [] v = "aP3" -> <<<<"GAMMA", "X">>, <<"Y", "GAMMA", "Z">>, <<"R2", "GAMMA", "T2">>, <<"U2", "GAMMA", "V2">>>>
    [] v = "CUB" -> <<<<"GAMMA", "X", "M", "GAMMA", "R", "X">>, <<"M", "R">>>>
    [] v = "FCC" -> <<<<"GAMMA", "X", "W", "K", "GAMMA", "L", "U", "W", "L", "K">>, <<"U", "X">>>>
    [] v = "BCC" -> <<<<"GAMMA", "H", "N", "GAMMA", "P", "H">>, <<"P", "N">>>>
    [] v = "TET" -> <<<<"GAMMA", "X", "M", "GAMMA", "Z", "R", "A", "Z">>, <<"X", "R">>, <<"M", "A">>>>
    [] v = "BCT1" -> <<<<"GAMMA", "X", "M", "GAMMA", "Z", "P", "N", "Z1", "M">>, <<"X", "P">>>>
    [] v = "BCT2" -> <<<<"GAMMA", "X", "Y", "SIGMA", "GAMMA", "Z", "SIGMA1", "N", "P", "Y1", "Z">>, <<"X", "P">>>>
    [] v = "ORC" -> <<<<"GAMMA", "X", "S", "Y", "GAMMA", "Z", "U", "R", "T", "Z">>, <<"Y", "T">>, <<"U", "X">>, <<"S", "R">>>>
    [] v = "ORCF1" -> <<<<"GAMMA", "Y", "T", "Z", "GAMMA", "X", "A1", "Y">>, <<"T", "X1">>, <<"X", "A", "Z">>, <<"L", "GAMMA">>>>
    [] v = "ORCF2" -> <<<<"GAMMA", "Y", "C", "D", "X", "GAMMA", "Z", "D1", "H", "C">>, <<"C1", "Z">>, <<"X", "H1">>, <<"H", "Y">>, <<"L", "GAMMA">>>>
    [] v = "ORCF3" -> <<<<"GAMMA", "Y", "T", "Z", "GAMMA", "X", "A1", "Y">>, <<"X", "A", "Z">>, <<"L", "GAMMA">>>>
    [] v = "ORCI" -> <<<<"GAMMA", "X", "L", "T", "W", "R", "X1", "Z", "GAMMA", "Y", "S", "W">>, <<"L1", "Y">>, <<"Y1", "Z">>>>
    [] v = "ORCC" -> <<<<"GAMMA", "X", "S", "R", "A", "Z", "GAMMA", "Y", "X1", "A1", "T", "Y">>, <<"Z", "T">>>>
    [] v = "HEX" -> <<<<"GAMMA", "M", "K", "GAMMA", "A", "L", "H", "A">>, <<"L", "M">>, <<"K", "H">>>>
    [] v = "RHL1" -> <<<<"GAMMA", "L", "B1">>, <<"B", "Z", "GAMMA", "X">>, <<"Q", "F", "P1", "Z">>, <<"L", "P">>>>
    [] v = "RHL2" -> <<<<"GAMMA", "P", "Z", "Q", "GAMMA", "F", "P1", "Q1", "L", "Z">>>>
    [] v = "MCL" -> <<<<"GAMMA", "Y", "H", "C", "E", "M1", "A", "X", "H1">>, <<"M", "D", "Z">>, <<"Y", "D">>>>
    [] v = "MCLC1" -> <<<<"GAMMA", "Y", "F", "L", "I">>, <<"I1", "Z", "F1">>, <<"Y", "X1">>, <<"X", "GAMMA", "N">>, <<"M", "GAMMA">>>>
    [] v = "MCLC2" -> <<<<"GAMMA", "Y", "F", "L", "I">>, <<"I1", "Z", "F1">>, <<"N", "GAMMA", "M">>>>
    [] v = "MCLC3" -> <<<<"GAMMA", "Y", "F", "H", "Z", "I", "F1">>, <<"H1", "Y1", "X", "GAMMA", "N">>, <<"M", "GAMMA">>>>
    [] v = "MCLC4" -> <<<<"GAMMA", "Y", "F", "H", "Z", "I">>, <<"H1", "Y1", "X", "GAMMA", "N">>, <<"M", "GAMMA">>>>
    [] v = "MCLC5" -> <<<<"GAMMA", "Y", "F", "L", "I">>, <<"I1", "Z", "H", "F1">>, <<"H1", "Y1", "X", "GAMMA", "N">>, <<"M", "GAMMA">>>>
    [] v = "TRI1a" -> <<<<"X", "GAMMA", "Y">>, <<"L", "GAMMA", "Z">>, <<"N", "GAMMA", "M">>, <<"R", "GAMMA">>>>
    [] v = "TRI2a" -> <<<<"X", "GAMMA", "Y">>, <<"L", "GAMMA", "Z">>, <<"N", "GAMMA", "M">>, <<"R", "GAMMA">>>>
    [] v = "TRI1b" -> <<<<"X", "GAMMA", "Y">>, <<"L", "GAMMA", "Z">>, <<"N", "GAMMA", "M">>, <<"R", "GAMMA">>>>
    [] v = "TRI2b" -> <<<<"X", "GAMMA", "Y">>, <<"L", "GAMMA", "Z">>, <<"N", "GAMMA", "M">>, <<"R", "GAMMA">>>>
Extended(p) ==
  p \o [i \in 1..Len(p) |-> [j \in 1..Len(p[i]) |->
          IF p[i][j] = "GAMMA" THEN "GAMMA" ELSE p[i][j] \o "_P"]]
PathNames(p) == UNION {{p[i][j] : j \in 1..Len(p[i])} : i \in 1..Len(p)}
=============================================================================
