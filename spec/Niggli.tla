------------------------------- MODULE Niggli -------------------------------
(***************************************************************************)
(* Niggli reduction (Krivy & Gruber 1976) as an exact machine on the        *)
(* parameters <<A, B, C, xi, eta, zeta>> of a metric, and the definition of *)
(* a Niggli-reduced metric (International Tables A, 9.2), independent of it.*)
(***************************************************************************)
EXTENDS Lat
ParamsOf(G) == <<G[1][1], G[2][2], G[3][3], 2 * G[2][3], 2 * G[1][3], 2 * G[1][2]>>
GramOfParams(p) == \* twice the Gram matrix
  <<<<2 * p[1], p[6], p[5]>>, <<p[6], 2 * p[2], p[4]>>, <<p[5], p[4], 2 * p[3]>>>>

(* --------------------------- the definition ------------------------------ *)
Pos(p) == p[4] > 0 /\ p[5] > 0 /\ p[6] > 0
NonPos(p) == p[4] <= 0 /\ p[5] <= 0 /\ p[6] <= 0
IsNiggli(p) ==
  LET A == p[1]
      B == p[2]
      C == p[3]
      x == p[4]
      e == p[5]
      z == p[6]
  IN  /\ A <= B /\ B <= C
      /\ Pos(p) \/ NonPos(p)
      /\ Abs(x) <= B /\ Abs(e) <= A /\ Abs(z) <= A
      /\ A = B => Abs(x) <= Abs(e)
      /\ B = C => Abs(e) <= Abs(z)
      /\ Pos(p) => /\ x = B => z <= 2 * e
                   /\ e = A => z <= 2 * x
                   /\ z = A => e <= 2 * x
      /\ NonPos(p) => /\ x + e + z + A + B >= 0
                      /\ x = -B => z = 0
                      /\ e = -A => z = 0
                      /\ z = -A => e = 0
                      /\ x + e + z + A + B = 0 => 2 * (A + e) + z <= 0

(* ----------------------------- the machine ------------------------------- *)
\* one pass; [p, go]: go when another pass is needed
NStep(p) ==
  LET q1 == IF p[1] > p[2] \/ (p[1] = p[2] /\ Abs(p[4]) > Abs(p[5]))
            THEN <<p[2], p[1], p[3], p[5], p[4], p[6]>> ELSE p
      sw == q1[2] > q1[3] \/ (q1[2] = q1[3] /\ Abs(q1[5]) > Abs(q1[6]))
      q2 == <<q1[1], q1[3], q1[2], q1[4], q1[6], q1[5]>>
      s == Sgn(q1[4]) * Sgn(q1[5]) * Sgn(q1[6])
      q3 == IF s > 0 THEN <<q1[1], q1[2], q1[3], Abs(q1[4]), Abs(q1[5]), Abs(q1[6])>>
            ELSE <<q1[1], q1[2], q1[3], -Abs(q1[4]), -Abs(q1[5]), -Abs(q1[6])>>
      A == q3[1]
      B == q3[2]
      C == q3[3]
      x == q3[4]
      e == q3[5]
      z == q3[6]
  IN  IF sw THEN [p |-> q2, go |-> TRUE]
      ELSE IF Abs(x) > B \/ (x = B /\ 2 * e < z) \/ (x = -B /\ z < 0)
      THEN [p |-> <<A, B, B + C - x * Sgn(x), x - 2 * B * Sgn(x), e - z * Sgn(x), z>>, go |-> TRUE]
      ELSE IF Abs(e) > A \/ (e = A /\ 2 * x < z) \/ (e = -A /\ z < 0)
      THEN [p |-> <<A, B, A + C - e * Sgn(e), x - z * Sgn(e), e - 2 * A * Sgn(e), z>>, go |-> TRUE]
      ELSE IF Abs(z) > A \/ (z = A /\ 2 * x < e) \/ (z = -A /\ e < 0)
      THEN [p |-> <<A, A + B - z * Sgn(z), C, x - e * Sgn(z), e, z - 2 * A * Sgn(z)>>, go |-> TRUE]
      ELSE IF x + e + z + A + B < 0 \/ (x + e + z + A + B = 0 /\ 2 * (A + e) + z > 0)
      THEN [p |-> <<A, B, A + B + C + x + e + z, 2 * B + x + z, 2 * A + e + z, z>>, go |-> TRUE]
      ELSE [p |-> q3, go |-> FALSE]
RECURSIVE NReduce(_, _)
NReduce(p, fuel) ==
  LET s == NStep(p) IN IF ~s.go THEN s.p ELSE IF fuel = 0 THEN <<0, 0, 0, 0, 0, 0>>
                                     ELSE NReduce(s.p, fuel - 1)
Reduction(G) == NReduce(ParamsOf(G), 400)
=============================================================================
