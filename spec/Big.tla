-------------------------------- MODULE Big --------------------------------
(* Exact integers and rationals of any size.                                *)
(* TLC integers have 32 bits (overflow is an error), so larger numbers are  *)
(* <<sign, limbs>>: limbs little-endian in base 10^4, no leading zeros,     *)
(* zero is <<0, <<>>>>.  Up to 20 limbs.  A rational is <<num, den>> with   *)
(* den > 0, not reduced.  Checked against TLC's integers by MCBig.          *)
EXTENDS Integers, Sequences
LOCAL BASE == 10000

RECURSIVE BLimbs(_)
BLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BLimbs(n \div BASE)
\* integer to big integer
BI(n) == IF n = 0 THEN <<0, <<>>>>
         ELSE IF n > 0 THEN <<1, BLimbs(n)>> ELSE <<-1, BLimbs(-n)>>
BZero == <<0, <<>>>>

RECURSIVE BTrim(_)
BTrim(x) == IF x = <<>> THEN x
            ELSE IF x[Len(x)] = 0 THEN BTrim(SubSeq(x, 1, Len(x) - 1)) ELSE x
LOCAL At(x, i) == IF i <= Len(x) THEN x[i] ELSE 0

\* magnitudes: -1, 0, 1
RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(x, y, i) ==
  IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1
  ELSE BCmpFrom(x, y, i - 1)
BCmpMag(x, y) ==
  IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1
  ELSE BCmpFrom(x, y, Len(x))

RECURSIVE BAddC(_, _, _, _)
BAddC(x, y, i, carry) ==
  IF i > Len(x) /\ i > Len(y) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == At(x, i) + At(y, i) + carry
       IN  <<s % BASE>> \o BAddC(x, y, i + 1, s \div BASE)
RECURSIVE BSubC(_, _, _, _)
BSubC(x, y, i, borrow) ==
  IF i > Len(x) THEN <<>>
  ELSE LET s == x[i] - At(y, i) - borrow
       IN  <<s % BASE>> \o BSubC(x, y, i + 1, IF s < 0 THEN 1 ELSE 0)

BNeg(a) == <<-a[1], a[2]>>
BAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN <<a[1], BAddC(a[2], b[2], 1, 0)>>
  ELSE LET c == BCmpMag(a[2], b[2])
       IN  IF c = 0 THEN BZero
           ELSE IF c > 0 THEN <<a[1], BTrim(BSubC(a[2], b[2], 1, 0))>>
           ELSE <<b[1], BTrim(BSubC(b[2], a[2], 1, 0))>>
BSub(a, b) == BAdd(a, BNeg(b))

LOCAL Max(a, b) == IF a > b THEN a ELSE b
LOCAL Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE BDotR(_, _, _, _, _)
BDotR(x, y, k, i, hi) ==
  IF i > hi THEN 0 ELSE x[i] * y[k + 1 - i] + BDotR(x, y, k, i + 1, hi)
RECURSIVE BMulC(_, _, _, _)
BMulC(x, y, k, carry) ==
  IF k > Len(x) + Len(y) - 1
  THEN BLimbs(carry)
  ELSE LET s == carry + BDotR(x, y, k, Max(1, k + 1 - Len(y)), Min(k, Len(x)))
       IN  <<s % BASE>> \o BMulC(x, y, k + 1, s \div BASE)
BMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN BZero
  ELSE <<a[1] * b[1], BTrim(BMulC(a[2], b[2], 1, 0))>>
BCmp(a, b) == BSub(a, b)[1]
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0

(* ------------------------------- rationals ------------------------------- *)
BR(n, d) == IF d < 0 THEN <<BI(-n), BI(-d)>> ELSE <<BI(n), BI(d)>>
QI(n) == <<BI(n), BI(1)>>
QAdd(p, q) == IF p[2] = q[2] THEN <<BAdd(p[1], q[1]), p[2]>>
              ELSE <<BAdd(BMul(p[1], q[2]), BMul(q[1], p[2])), BMul(p[2], q[2])>>
QNeg(p) == <<BNeg(p[1]), p[2]>>
QSub(p, q) == QAdd(p, QNeg(q))
QMul(p, q) == <<BMul(p[1], q[1]), BMul(p[2], q[2])>>
QInv(p) == IF p[1][1] < 0 THEN <<BNeg(p[2]), BNeg(p[1])>> ELSE <<p[2], p[1]>>
QDiv(p, q) == QMul(p, QInv(q))
QSgn(p) == p[1][1]
QCmp(p, q) == BCmp(BMul(p[1], q[2]), BMul(q[1], p[2]))
QZero == QI(0)
QOne == QI(1)

\* small big integer back to an integer (must fit)
RECURSIVE BToInt(_, _)
BToInt(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + BASE * BToInt(x, i + 1)
BInt(a) == a[1] * BToInt(a[2], 1)

\* truncated p * 10^k as an integer (must fit in 32 bits): digit by digit
RECURSIVE BDigit(_, _, _)
BDigit(r, d, n) == IF BCmpMag(r, d) < 0 THEN <<r, n>>
                   ELSE BDigit(BTrim(BSubC(r, d, 1, 0)), d, n + 1)
RECURSIVE BIntPart(_, _, _)
\* integer part by doubling: <<remainder, quotient>> of r / d
BIntPart(r, d, fuel) ==
  IF BCmpMag(r, d) < 0 \/ fuel = 0 THEN <<r, 0>>
  ELSE LET h == BIntPart(r, BTrim(BAddC(d, d, 1, 0)), fuel - 1)
       IN  IF BCmpMag(h[1], d) < 0 THEN <<h[1], 2 * h[2]>>
           ELSE <<BTrim(BSubC(h[1], d, 1, 0)), 2 * h[2] + 1>>
RECURSIVE BFrac(_, _, _, _)
BFrac(r, d, acc, k) ==
  IF k = 0 THEN acc
  ELSE LET x == BDigit(BTrim(BMulC(r, <<10>>, 1, 0)), d, 0)
       IN  IF r = <<>> THEN BFrac(r, d, acc * 10, k - 1)
           ELSE BFrac(x[1], d, acc * 10 + x[2], k - 1)
QFixed(p, k) ==
  LET ip == BIntPart(p[1][2], p[2][2], 31)
  IN  p[1][1] * BFrac(ip[1], p[2][2], ip[2], k)
=============================================================================
