------------------------------- MODULE MCBig -------------------------------
(* Big against TLC's own integers. *)
EXTENDS Big, TLC
Vals == {-123456789, -100000000, -99999999, -20001, -10000, -9999, -101, -7, -1, 0, 1, 3, 10, 999, 9999, 10000, 10001, 12345, 46340, 99999999, 500000000}
K == 46340
VARIABLES a, b, c
Norm(x) == /\ x[1] \in {-1, 0, 1} /\ (x[1] = 0) = (x[2] = <<>>)
           /\ \A i \in 1..Len(x[2]) : x[2][i] \in 0..9999
           /\ x[2] # <<>> => x[2][Len(x[2])] # 0
Init == a \in Vals /\ b \in Vals /\ c \in Vals
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
AddOK == BAdd(BI(a), BI(b)) = BI(a + b) /\ BSub(BI(a), BI(b)) = BI(a - b) /\ BInt(BI(a)) = a
CmpOK == BCmp(BI(a), BI(b)) = Sgn(a - b)
MulOK == (a \in -K..K /\ b \in -K..K) => BMul(BI(a), BI(b)) = BI(a * b)
NormOK == Norm(BMul(BI(a), BMul(BI(b), BI(c)))) /\ Norm(BAdd(BMul(BI(a), BI(b)), BI(c)))
Ring == /\ BMul(BI(a), BAdd(BI(b), BI(c))) = BAdd(BMul(BI(a), BI(b)), BMul(BI(a), BI(c)))
        /\ BMul(BI(a), BMul(BI(b), BI(c))) = BMul(BMul(BI(a), BI(b)), BI(c))
        /\ BAdd(BI(a), BAdd(BI(b), BI(c))) = BAdd(BAdd(BI(a), BI(b)), BI(c))
Abs(x) == IF x < 0 THEN -x ELSE x
FixOK == b # 0 /\ Abs(a) < 20000 =>
           QFixed(BR(a, b), 4) = Sgn(a) * Sgn(b) * ((Abs(a) * 10000) \div Abs(b))
QOK == b # 0 /\ c # 0 => /\ QCmp(QMul(BR(a, b), BR(b, c)), BR(a, c)) = 0
                         /\ QCmp(QSub(QAdd(BR(a, b), BR(c, b)), BR(c, b)), BR(a, b)) = 0
                         /\ QCmp(QDiv(BR(a, b), BR(c, b)), BR(a, c)) = 0
=============================================================================
