------------------------------ MODULE Sampling ------------------------------
(* A k-path sampled for plotting.  Points have integer coordinates (in 1/Den  *)
(* of the basis), G is the integer Gram matrix of the basis.                  *)
EXTENDS Big, FiniteSets
Segments(p) == \* <<subpath, i>> of every segment, in order
  LET RECURSIVE go(_, _)
      go(s, i) == IF s > Len(p) THEN <<>>
                  ELSE IF i >= Len(p[s]) THEN go(s + 1, 1)
                  ELSE <<<<s, i>>>> \o go(s, i + 1)
  IN  go(1, 1)
\* labels along the path: those on both sides of a break are joined
LabelsOf(p, lab) ==
  LET RECURSIVE go(_, _, _)
      go(s, i, acc) ==
        IF s > Len(p) THEN acc
        ELSE IF i > Len(p[s]) THEN go(s + 1, 1, acc)
        ELSE LET t == lab[p[s][i]]
             IN  IF i = 1 /\ s > 1
                 THEN go(s, 2, [acc EXCEPT ![Len(acc)] = @ \o "|" \o t])
                 ELSE go(s, i + 1, Append(acc, t))
  IN  go(1, 1, <<>>)
NTicks(p) == IF p = <<>> THEN 0 ELSE 1 + Len(Segments(p))
\* squared length of d (integer triple) in the metric G
Sq(d, G) ==
  LET x(i, j) == BI(d[i] * d[j])
      t(i, j) == BMul(x(i, j), BI(G[i][j]))
  IN  BAdd(BAdd(BAdd(t(1, 1), t(2, 2)), BAdd(t(3, 3), t(1, 2))),
           BAdd(BAdd(t(1, 2), BAdd(t(1, 3), t(1, 3))), BAdd(t(2, 3), t(2, 3))))
\* |len / Scale| is the length of d / Den within tol / Scale
LengthIs(len, d, G, den, scale, tol) ==
  LET s2 == BMul(Sq(d, G), BMul(BI(scale), BI(scale)))
      hi == BMul(BI((len + tol) * den), BI((len + tol) * den))
      lo == BMul(BI((len - tol) * den), BI((len - tol) * den))
  IN  BLe(s2, hi) /\ (len > tol => BLe(lo, s2))
=============================================================================
