------------------------------- MODULE Poscar -------------------------------
(* POSCAR files.  A file is a sequence of lines, a line a sequence of tokens  *)
(* (texts without blanks).  Read gives what the format defines; Write is the  *)
(* layout of a file without scale and without selective dynamics.             *)
EXTENDS Lat, TLC
Ch(s, i) == SubSeq(s, i, i)
DecDigits == "0123456789"
IsDigit(c) == \E d \in 1..10 : Ch(DecDigits, d) = c
DigitVal(c) == (CHOOSE d \in 1..10 : Ch(DecDigits, d) = c) - 1
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(Ch(s, i))
HasSign(s) == Len(s) > 0 /\ Ch(s, 1) \in {"-", "+"}
Body(s) == IF HasSign(s) THEN SubSeq(s, 2, Len(s)) ELSE s
IsInt(s) == LET b == Body(s) IN Len(b) > 0 /\ AllDigits(b)
Dot0(b) == LET P == {i \in 1..Len(b) : Ch(b, i) = "."} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
IntPart(b) == IF Dot0(b) = 0 THEN b ELSE SubSeq(b, 1, Dot0(b) - 1)
FracPart(b) == IF Dot0(b) = 0 THEN "" ELSE SubSeq(b, Dot0(b) + 1, Len(b))
IsDec(s) ==
  LET b == Body(s) IN AllDigits(IntPart(b)) /\ AllDigits(FracPart(b)) /\ Len(IntPart(b)) + Len(FracPart(b)) > 0
RECURSIVE Nat0(_, _)
Nat0(s, n) == IF Len(s) = 0 THEN n ELSE Nat0(SubSeq(s, 2, Len(s)), 10 * n + DigitVal(Ch(s, 1)))
IntVal(s) == IF Ch(s, 1) = "-" THEN -Nat0(Body(s), 0) ELSE Nat0(Body(s), 0)
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE "0" \o Zeros(n - 1)
\* a decimal number in units of 10^-u; of more than ten decimals the last ones may be
\* those of the nearest binary number
Extra(s, u) == LET f == FracPart(Body(s)) IN {Ch(f, i) : i \in (u + 1)..(IF Len(f) > 10 THEN 10 ELSE Len(f))}
Fits(s, u) == IsDec(s) /\ (Extra(s, u) \subseteq {"0"} \/ (Len(FracPart(Body(s))) > 10 /\ Extra(s, u) = {"9"}))
DecVal(s, u) ==
  LET f == FracPart(Body(s))
      g == IF Len(f) >= u THEN SubSeq(f, 1, u) ELSE f \o Zeros(u - Len(f))
      up == Len(f) > 10 /\ Extra(s, u) = {"9"}
      n == Nat0(IntPart(Body(s)) \o g, 0) + (IF up THEN 1 ELSE 0)
  IN  IF HasSign(s) /\ Ch(s, 1) = "-" THEN -n ELSE n
Decimals(s) == Len(FracPart(Body(s)))

(* ------------------------------- reading -------------------------------- *)
First(line) == IF Len(line) = 0 THEN "" ELSE Ch(line[1], 1)
HasSpecies(L) == \E i \in 1..Len(L[6]) : ~IsInt(L[6][i])
CountsAt(L) == IF HasSpecies(L) THEN 7 ELSE 6
Counts(L) == LET c == L[CountsAt(L)] IN [i \in 1..Len(c) |-> IntVal(c[i])]
Selective(L) == First(L[CountsAt(L) + 1]) \in {"S", "s"}
ModeAt(L) == CountsAt(L) + 1 + (IF Selective(L) THEN 1 ELSE 0)
Cartesian(L) == First(L[ModeAt(L)]) \in {"C", "c", "K", "k"}
RECURSIVE SumTo(_, _)
SumTo(c, i) == IF i = 0 THEN 0 ELSE c[i] + SumTo(c, i - 1)
Total(L) == SumTo(Counts(L), Len(Counts(L)))
\* group to which the k-th atom belongs
Group(L, k) == CHOOSE i \in 1..Len(Counts(L)) : SumTo(Counts(L), i - 1) < k /\ k <= SumTo(Counts(L), i)
CoordLine(L, k) == L[ModeAt(L) + k]
Coord(L, k, u) == [i \in I3 |-> DecVal(CoordLine(L, k)[i], u)]
Matrix(L, u) == [i \in I3 |-> [j \in I3 |-> DecVal(L[2 + i][j], u)]]
Name(L, k) == L[6][Group(L, k)]
WellFormed(L) ==
  /\ Len(L) >= 8 /\ Len(L[2]) \in {1, 3} /\ \A i \in 1..Len(L[2]) : IsDec(L[2][i])
  /\ Len(L[2]) = 3 => \A i \in I3 : ~(Ch(L[2][i], 1) = "-")
  /\ \A i \in 3..5 : Len(L[i]) = 3 /\ \A j \in I3 : IsDec(L[i][j])
  /\ Len(L[6]) > 0
  /\ \A i \in 1..Len(L[CountsAt(L)]) : IsInt(L[CountsAt(L)][i]) /\ IntVal(L[CountsAt(L)][i]) >= 0
  /\ HasSpecies(L) => Len(L[6]) = Len(L[7])
  /\ First(L[ModeAt(L)]) \in {"C", "c", "K", "k", "D", "d"}
  /\ Len(L) >= ModeAt(L) + Total(L)
  /\ \A k \in 1..Total(L) : Len(CoordLine(L, k)) >= 3 /\ \A j \in I3 : IsDec(CoordLine(L, k)[j])

(* c is the cell the format defines, in units 10^-(u+su) *)
IsScaled(L, u, su, c, tn, td) ==
  LET M == Matrix(L, u)
      s == [i \in 1..Len(L[2]) |-> DecVal(L[2][i], su)]
  IN  IF Len(s) = 3 THEN c = [i \in I3 |-> [j \in I3 |-> s[j] * M[i][j]]]
      ELSE IF s[1] > 0 THEN c = MScale(s[1], M)
      \* the multiple tn / td of M has volume |s|; here c is td times the cell, in units 1
      ELSE c = MScale(tn, Matrix(L, 0))
\* (tn/td)^3 is |s| / volume; M is in units 1 and s in units 10^-su
VolumeFactor(L, su, tn, td) ==
  LET M == Matrix(L, 0)
      k == IF su = 3 THEN 1000 ELSE 1
  IN  tn > 0 /\ td > 0 /\ (td * td * td) * Abs(DecVal(L[2][1], su)) = (tn * tn * tn) * (Abs(Det(M)) * k)

(* ------------------------------- writing -------------------------------- *)
\* the lines that name species and their numbers, and the mode
Layout(L, mode) ==
  /\ WellFormed(L) /\ HasSpecies(L) /\ ~Selective(L)
  /\ Len(L[2]) = 1 /\ Fits(L[2][1], 0) /\ DecVal(L[2][1], 0) = 1
  /\ L[ModeAt(L)] = <<mode>>
  /\ \A i, j \in 1..Len(L[6]) : i # j => L[6][i] # L[6][j]
  /\ \A i \in 1..Len(Counts(L)) : Counts(L)[i] > 0
  /\ \A k \in (ModeAt(L) + Total(L) + 1)..Len(L) : L[k] = <<>>
  /\ \A k \in 1..Total(L) : Len(CoordLine(L, k)) = 3
AllDecimals(L, d) ==
  /\ \A i \in 3..5 : \A j \in I3 : Decimals(L[i][j]) = d
  /\ \A k \in 1..Total(L) : \A j \in I3 : Decimals(CoordLine(L, k)[j]) = d
\* number of times <<species, position>> occurs
CountIn(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : CountIn(a, a[k]) = CountIn(b, a[k])
\* the same up to eps in every coordinate (entries of one species are farther apart)
NearBag(a, b, eps) ==
  LET near(x, y) == x[1] = y[1] /\ \A i \in I3 : Abs(x[2][i] - y[2][i]) <= eps
  IN  Len(a) = Len(b) /\ (\A k \in 1..Len(a) : \E m \in 1..Len(b) : near(a[k], b[m]))
      /\ \A k \in 1..Len(b) : \E m \in 1..Len(a) : near(a[m], b[k])

\* numbers as texts: n units of 10^-d
Pad(s, d) == IF Len(s) > d THEN s ELSE Zeros(d + 1 - Len(s)) \o s
Fmt(n, d) ==
  LET a == Pad(ToString(Abs(n)), d)
      t == IF d = 0 THEN a ELSE SubSeq(a, 1, Len(a) - d) \o "." \o SubSeq(a, Len(a) - d + 1, Len(a))
  IN  IF n < 0 THEN "-" \o t ELSE t
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000 [] n = 6 -> 1000000
\* n units of 10^-d, rounded to units of 10^-e
ToUnits(n, d, e) == IF e >= d THEN n * Pow10(e - d)
                    ELSE LET k == Pow10(d - e) IN (IF n < 0 THEN -1 ELSE 1) * ((2 * Abs(n) + k) \div (2 * k))
FmtRow(v, d, e) == [i \in I3 |-> Fmt(ToUnits(v[i], d, e), e)]
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>>
           ELSE LET r == Uniq(SubSeq(q, 1, Len(q) - 1)) IN IF \E i \in 1..Len(r) : r[i] = q[Len(q)] THEN r ELSE Append(r, q[Len(q)])
\* the file of a crystal: cell in units 10^-du, atoms <<species, position>> in 10^-dp
Write(x, mode, e, comment) ==
  LET kinds == Uniq([k \in 1..Len(x.at) |-> x.at[k][1]])
      of(s) == SelectSeq(x.at, LAMBDA a : a[1] = s)
      coord(p) == IF mode = "Direct" THEN FmtRow(p, x.dp, e) ELSE FmtRow(VM(p, x.cell), x.dp + x.du, e)
      RECURSIVE rows(_)
      rows(i) == IF i = 0 THEN <<>>
                 ELSE rows(i - 1) \o [k \in 1..Len(of(kinds[i])) |-> coord(of(kinds[i])[k][2])]
  IN  <<comment, <<"1.0">>>> \o [i \in I3 |-> FmtRow(x.cell[i], x.du, e)]
      \o <<kinds, [i \in 1..Len(kinds) |-> ToString(Len(of(kinds[i])))], <<mode>>>> \o rows(Len(kinds))
\* the crystal of a Direct file without scale: everything in units 10^-e
ReadDirect(L, e) ==
  [cell |-> Matrix(L, e), du |-> e, dp |-> e,
   at |-> [k \in 1..Total(L) |-> <<Name(L, k), Coord(L, k, e)>>]]

(* blanks at the ends of a comment, as code points *)
RECURSIVE LStrip(_), RStrip(_)
LStrip(c) == IF c # <<>> /\ c[1] \in {32, 9, 10, 13} THEN LStrip(Tail(c)) ELSE c
RStrip(c) == IF c # <<>> /\ c[Len(c)] \in {32, 9, 10, 13} THEN RStrip(SubSeq(c, 1, Len(c) - 1)) ELSE c
Strip(c) == RStrip(LStrip(c))
\* a comment in one line: every line break is a blank (one or two for CR LF)
OneLine(c) == [i \in 1..Len(c) |-> IF c[i] \in {10, 13} THEN 32 ELSE c[i]]
RECURSIVE OneLineCRLF(_)
OneLineCRLF(c) ==
  IF c = <<>> THEN <<>>
  ELSE IF Len(c) >= 2 /\ c[1] = 13 /\ c[2] = 10 THEN <<32>> \o OneLineCRLF(SubSeq(c, 3, Len(c)))
  ELSE <<IF c[1] \in {10, 13} THEN 32 ELSE c[1]>> \o OneLineCRLF(Tail(c))
SameComment(c, got) == Strip(got) \in {Strip(OneLine(c)), Strip(OneLineCRLF(c))}
=============================================================================
