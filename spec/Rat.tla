-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic.  A rational is <<num, den>>, den > 0, reduced. *)
(* TLC integers are 32-bit (overflow is an error, never silent), so sums and *)
(* products are arranged to keep intermediate values small.                  *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE GCDr(_, _)
GCDr(a, b) == IF b = 0 THEN a ELSE GCDr(b, a % b)
GCD(a, b) == GCDr(Abs(a), Abs(b))

Frac(n, d) ==
  LET g == GCD(n, d)
      s == IF d < 0 THEN -1 ELSE 1
  IN  IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>

RInt(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RHalf == <<1, 2>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) ==
  LET g == GCD(a[2], b[2])
      da == a[2] \div g
      db == b[2] \div g
  IN  Frac(a[1] * db + b[1] * da, da * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  LET g1 == IF a[1] = 0 THEN 1 ELSE GCD(a[1], b[2])
      g2 == IF b[1] = 0 THEN 1 ELSE GCD(b[1], a[2])
      n1 == IF a[1] < 0 THEN -((-a[1]) \div g1) ELSE a[1] \div g1
      n2 == IF b[1] < 0 THEN -((-b[1]) \div g2) ELSE b[1] \div g2
  IN  Frac(n1 * n2, (a[2] \div g2) * (b[2] \div g1))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
\* sign of a - b without forming the difference's common denominator twice
RCmp(a, b) == Sgn(RSub(a, b)[1])
RLe(a, b) == RCmp(a, b) <= 0
RLt(a, b) == RCmp(a, b) < 0
REq(a, b) == a = b

(* Fixed point: floor(a * 10^k) digit by digit (den < 2*10^8). *)
RECURSIVE Digits(_, _, _, _)
Digits(rem, den, acc, k) ==
  IF k = 0 THEN acc
  ELSE Digits((rem * 10) % den, den, acc * 10 + ((rem * 10) \div den), k - 1)
\* a in units of 10^-k, for |a| < 2*10^(9-k)
Fixed(a, k) ==
  LET n == Abs(a[1])
      v == Digits(n % a[2], a[2], n \div a[2], k)
  IN  IF a[1] < 0 THEN -v ELSE v
\* |a - obs * 10^-k| <= tol * 10^-k
NearFixed(a, obs, k, tol) == Abs(Fixed(a, k) - obs) <= tol
=============================================================================
