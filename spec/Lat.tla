-------------------------------- MODULE Lat --------------------------------
(* Integer lattices and periodic sets of typed points, exactly.             *)
(* A lattice is a 3x3 integer matrix, rows are its basis vectors; a vector  *)
(* is a triple.  All of them live on a common integer grid.                 *)
EXTENDS Rat, FiniteSets, SequencesExt, FiniteSetsExt

I3 == 1..3
VAdd(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
VSub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
VNeg(u) == <<-u[1], -u[2], -u[3]>>
VScale(k, u) == <<k * u[1], k * u[2], k * u[3]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2],
                 u[3] * v[1] - u[1] * v[3],
                 u[1] * v[2] - u[2] * v[1]>>
Det(M) == Dot(M[1], Cross(M[2], M[3]))
Transp(M) == [i \in I3 |-> <<M[1][i], M[2][i], M[3][i]>>]
\* row vector times matrix
VM(v, M) == <<v[1] * M[1][1] + v[2] * M[2][1] + v[3] * M[3][1],
              v[1] * M[1][2] + v[2] * M[2][2] + v[3] * M[3][2],
              v[1] * M[1][3] + v[2] * M[2][3] + v[3] * M[3][3]>>
MM(A, B) == <<VM(A[1], B), VM(A[2], B), VM(A[3], B)>>
\* adjugate: MM(M, Adj(M)) = Det(M) * Id
Adj(M) == Transp(<<Cross(M[2], M[3]), Cross(M[3], M[1]), Cross(M[1], M[2])>>)
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
MScale(k, M) == <<VScale(k, M[1]), VScale(k, M[2]), VScale(k, M[3])>>
Unimodular(M) == Abs(Det(M)) = 1
GCD3(a, b, c) == GCD(a, GCD(b, c))
GCDM(M) == GCD3(GCD3(M[1][1], M[1][2], M[1][3]), GCD3(M[2][1], M[2][2], M[2][3]),
                GCD3(M[3][1], M[3][2], M[3][3]))
SDiv(a, g) == IF a < 0 THEN -((-a) \div g) ELSE a \div g
MDiv(M, g) == [i \in I3 |-> [j \in I3 |-> SDiv(M[i][j], g)]]

\* coordinates of grid vector v in the basis B, as numerators over |Det(B)|,
\* reduced modulo the lattice of B: a canonical name of the coset v + L(B)
Coset(v, adj, d) ==
  LET c == VM(v, adj) IN <<c[1] % d, c[2] % d, c[3] % d>>
InLattice(v, B) == Coset(v, Adj(B), Abs(Det(B))) = <<0, 0, 0>>
\* every vector of lattice A is a vector of lattice B
SubLattice(A, B) == \A i \in I3 : InLattice(A[i], B)
SameLattice(A, B) == SubLattice(A, B) /\ SubLattice(B, A)

\* Gram matrix of grid basis B when the metric of the grid is G
Gram(B, G) == MM(MM(B, G), Transp(B))

(* ------------------------------ crystals -------------------------------- *)
\* A description is [cell |-> lattice, at |-> sequence of <<point, type>>]
Points(d) ==
  LET a == Adj(d.cell)
      n == Abs(Det(d.cell))
  IN  {<<d.at[i][2], Coset(d.at[i][1], a, n)>> : i \in 1..Len(d.at)}
Distinct(d) == Cardinality(Points(d)) = Len(d.at)

\* The same periodic set of typed points, described twice: x shifted by t is y.
\* SX are the points of x; every point of y is a point of x, the translations
\* of y are translations of x, and both have the same density.
DescribesShifted(x, y, t) ==
  LET a == Adj(x.cell)
      n == Abs(Det(x.cell))
      S == Points(x)
      Has(p, ty) == <<ty, Coset(p, a, n)>> \in S
  IN  \A i \in 1..Len(y.at) : Has(VAdd(y.at[i][1], t), y.at[i][2])
TranslationsOK(x, y) ==
  LET a == Adj(x.cell)
      n == Abs(Det(x.cell))
      S == Points(x)
  IN  \A i \in I3 : \A j \in 1..Len(x.at) :
        <<x.at[j][2], Coset(VAdd(x.at[j][1], y.cell[i]), a, n)>> \in S
\* |y| * det(x) = |x| * det(y), divided by the gcd so it stays small
SameDensity(x, y) ==
  LET dx == Abs(Det(x.cell))
      dy == Abs(Det(y.cell))
      g == GCD(dx, dy)
  IN  dy # 0 /\ Len(y.at) * (dx \div g) = Len(x.at) * (dy \div g)
SameShiftExists(x, y) ==
  \E j \in 1..Len(x.at) :
     /\ x.at[j][2] = y.at[1][2]
     /\ DescribesShifted(x, y, VSub(x.at[j][1], y.at[1][1]))
SameCrystal(x, y) ==
  /\ Len(y.at) > 0
  /\ Distinct(y)
  /\ SameDensity(x, y)
  /\ TranslationsOK(x, y)
  /\ SameShiftExists(x, y)

\* translations of the crystal that are not translations of its cell
ExtraTranslations(d) ==
  LET a == Adj(d.cell)
      n == Abs(Det(d.cell))
      S == Points(d)
  IN  {j \in 2..Len(d.at) :
         LET v == VSub(d.at[j][1], d.at[1][1])
         IN  /\ d.at[j][2] = d.at[1][2]
             /\ Coset(v, a, n) # <<0, 0, 0>>
             /\ \A i \in 1..Len(d.at) :
                   <<d.at[i][2], Coset(VAdd(d.at[i][1], v), a, n)>> \in S}
\* number of lattice points per cell
LatticePoints(d) == 1 + Cardinality(ExtraTranslations(d))
=============================================================================
