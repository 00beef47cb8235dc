----------------------------- MODULE GenEngine -----------------------------
EXTENDS Engine, Elements, Json
CONSTANT Depth
VARIABLES g, hist
Pick(S) == {RandomElement(S)}
R(S) == RandomElement(S)
\* obtuse superbases: cubic (P, I, F), tetragonal, hexagonal, rhombohedral,
\* orthorhombic, monoclinic and triclinic lattices
Bases == <<
  <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>>>,
  <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>, <<<<1, 1, 0>>, <<-1, 0, 1>>, <<0, -1, -1>>>>, <<<<1, 1, 0>>, <<0, -1, 1>>, <<-1, 0, -1>>>>,
  <<<<1, -1, 0>>, <<0, 1, -1>>, <<1, 1, 1>>>>, <<<<2, 0, 0>>, <<-1, 1, 0>>, <<0, 0, 1>>>>, <<<<2, 0, 0>>, <<-1, 2, 0>>, <<0, -1, 1>>>>,
  <<<<2, 0, 0>>, <<-1, 2, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<-1, 1, 0>>, <<0, -1, 1>>>>, <<<<2, 1, 0>>, <<-1, 1, 0>>, <<0, -1, 1>>>>>>
GoodBase(B) == Det(B) # 0 /\ Obtuse(B)
ToldBases == SelectSeq(Bases, GoodBase)
Ts == << <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>,
         <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>>>, <<<<1, 1, 1>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<-1, 1, 0>>, <<1, 0, 1>>>> >>
Flip(B, s, p) == [i \in 1..3 |-> [j \in 1..3 |-> s[j] * B[i][p[j]]]]
S3 == {<<1, 2, 3>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 2, 1>>, <<3, 1, 2>>, <<1, 3, 2>>}
Base(d) == LET B == ToldBases[R(1..Len(ToldBases))]
            s == <<R({-1, 1}), R({-1, 1}), R({-1, 1})>>
            p == R(S3)
        IN  TLCEval(Flip(B, TLCEval(s), TLCEval(p)))
Any3(n) == <<R(-n..n), R(-n..n), R(-n..n)>>
AnyCell(d) == LET M == TLCEval(<<Any3(3), Any3(3), Any3(3)>>) IN IF Det(M) = 0 THEN <<<<2, 0, 0>>, <<0, 3, 0>>, <<1, 0, 1>>>> ELSE M
Palette == {"#ff0000", "red", "rgb(1, 2, 3)", "#0f0", "#FF4D67", "#FFFFFF"}
Labels == {"", "", "L1", "Cr I3", "k"}
Groups == {"", "", "", "g1", "g2"}
Flat(p) == IF R(1..3) = 1 THEN <<p[1], p[2], 0>> ELSE p
Place(d) == IF R(1..3) = 1 THEN <<0, 0, 0>> ELSE IF R(1..2) = 1 THEN Any3(12) ELSE <<R(8..30), R(8..30), R(8..30)>>
Pts(n) == [i \in 1..n |-> TLCEval(Any3(8))]
SomePts(d) == LET n == R({1, 1, 2, 3, 5, 13}) IN TLCEval(Pts(n))
Colors1(d) == IF R(1..2) = 1 THEN <<>> ELSE <<R(Palette)>>
ManyColors(n) == TLCEval([i \in 1..n |-> R(Palette)])
NewEnd(a) == LET b == TLCEval(Any3(8)) IN IF b = a THEN VAdd(a, <<0, 0, 4>>) ELSE b
KNames == <<"G", "X", "Y1", "M_2", "SIGMA", "Y", "GAMMA", "H_2", "X1", "SIGMA_0", "H">>
\* a path over n points: subpaths of different lengths
SubPath(n) == LET m == R({2, 2, 2, 3, 4, 5, 8}) IN TLCEval([i \in 1..m |-> R(1..n)])
Path(n) == LET m == R({0, 1, 1, 2, 2, 3, 5}) IN TLCEval([i \in 1..m |-> SubPath(n)])
Common(d, gr) == [label |-> R(Labels), group |-> R(Groups), r |-> IF R(1..25) = 1 THEN gr[1] + 1 ELSE R(1..gr[1]), c |-> IF R(1..25) = 1 THEN gr[2] + 1 ELSE R(1..gr[2]),
               shift |-> TLCEval(Place(d)), form |-> R(1..3), noshift |-> R(1..4) = 1]
Special(d) ==
  CASE d \in 1..2 -> LET p == SomePts(d)
                         many == R(1..2) = 1
                     IN  [op |-> "points", pts |-> p, many |-> many, colors |-> IF many THEN ManyColors(Len(p)) ELSE Colors1(d)]
    [] d = 3 -> LET a == TLCEval(Any3(8)) IN [op |-> "line", a |-> a, b |-> NewEnd(a), colors |-> Colors1(d)]
    [] d \in 4..5 -> LET a == TLCEval(Any3(8)) IN [op |-> "vector", a |-> a, b |-> NewEnd(a), colors |-> Colors1(d), vlabel |-> R({"", "v", "b1"})]
    [] d \in 6..7 -> [op |-> "cell", B |-> AnyCell(d), vectors |-> R(BOOLEAN), vlabel |-> R({"", "k"}), colors |-> Colors1(d)]
    [] d \in 8..9 -> [op |-> R({"ws", "bz"}), B |-> Base(d), T |-> Ts[R(1..Len(Ts))], vectors |-> R(BOOLEAN), vlabel |-> R({"", "k"}), colors |-> Colors1(d)]
    [] d \in 10..12 -> LET n == R({1, 2, 3, 4, 5, 8, 11}) IN [op |-> "kpath", B |-> AnyCell(d), pts |-> Pts(n), names |-> SubSeq(KNames, 1, n), path |-> Path(n), colors |-> Colors1(d)]
    [] d \in 13..14 -> LET n == R({1, 2, 3, 4, 5, 8, 11})
                           p == Path(n)
                       IN [op |-> "kpoints", B |-> AnyCell(d), pts |-> Pts(n), names |-> SubSeq(KNames, 1, n), path |-> p, only |-> (p # <<>> /\ R(BOOLEAN)), colors |-> Colors1(d)]
    [] d = 15 -> [op |-> "lattice", B |-> AnyCell(d), range |-> <<R(0..2), R(0..1), R(0..2)>>, colors |-> Colors1(d)]
    [] d \in 16..18 ->
         LET n == R({1, 2, 3, 4, 5, 12})
             z == TLCEval([i \in 1..n |-> R(1..118)])
             m == R(1..4)
             cm == R(1..4)
         IN  [op |-> "atoms", B |-> AnyCell(d), pts |-> Pts(n), mode |-> m, hover |-> R({TRUE, TRUE, FALSE}),
              species |-> [i \in 1..n |-> Elements[z[i]]],
              names |-> IF m = 1 THEN [i \in 1..n |-> Elements[z[i]] \o ToString(i)] ELSE IF m = 2 THEN [i \in 1..n |-> "Q" \o ToString(i)] ELSE <<>>,
              many |-> (cm = 4), colors |-> IF cm <= 2 THEN <<>> ELSE IF cm = 3 THEN <<R(Palette)>> ELSE ManyColors(n)]
    [] d = 19 -> [op |-> "show", pos |-> R({"top", "BOTTOM", "Left", "right", "centre", ""}), axes |-> R({TRUE, TRUE, FALSE}), save |-> R(1..6) = 1]
\* no shift argument: shift is zero
Settle(x) == IF x.op \in {"points", "line", "vector"} \/ x.noshift THEN [x EXCEPT !.shift = <<0, 0, 0>>] ELSE x
Make(d, gr) == Settle(TLCEval(TLCEval(Special(d)) @@ TLCEval(Common(d, gr))))
Final == [op |-> "show", pos |-> "top", axes |-> TRUE, save |-> FALSE, label |-> "", group |-> "", r |-> 1, c |-> 1, shift |-> <<0, 0, 0>>, form |-> 1, noshift |-> TRUE]
GInit == hist = <<>> /\ g \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>}
GNext == /\ Len(hist) < Depth
         /\ \E d \in Pick(1..19) : \E op \in {Make(d, g)} : hist' = Append(hist, IF Len(hist) = Depth - 1 THEN Final ELSE op)
         /\ g' = g
GSpec == GInit /\ [][GNext]_<<g, hist>>
Good == Len(hist) > 0 => LET o == hist[Len(hist)] IN o.op \in {"ws", "bz"} => Obtuse(o.B) /\ Det(o.B) # 0
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([grid |-> g, fig |-> RandomElement(1..3), scale |-> RandomElement(1..4), hist |-> hist]))
=============================================================================
