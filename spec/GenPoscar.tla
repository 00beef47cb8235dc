------------------------------ MODULE GenPoscar -----------------------------
(* A person writes a POSCAR file, line after line, with any of the freedoms   *)
(* the format gives.  The ghost fields of f say what is meant.                *)
EXTENDS Poscar, Json
VARIABLES f, lines, stage
vars == <<f, lines, stage>>
Pick(S) == {RandomElement(S)}
Rn(S) == RandomElement(S)
RMat(k, m) == [i \in I3 |-> [j \in I3 |-> m * RandomElement((-k)..k)]]
\* texts of one number
Show(n, u) ==
  LET t == Fmt(n, u)
      z == Rn(1..8)
  IN  IF z = 1 THEN t \o (IF u = 0 THEN ".0" ELSE "0") ELSE IF z = 2 /\ n > 0 THEN "+" \o t
      ELSE IF z = 3 /\ u > 0 /\ n >= 0 /\ n < Pow10(u) THEN SubSeq(t, 2, Len(t)) ELSE t
ShowV(v, u) == [i \in I3 |-> Show(v[i], u)]
Words == {"Fe", "2", "NaCl", "-1.0", "structure", "(test)", "Direct", "#"}
Kinds == {"Fe", "O", "Na", "Cl", "H", "Uuo", "Fe_pv", "C", "D", "S", "K"}
Add(line) == lines' = Append(lines, line)
Init == f = [form |-> "", u |-> 0, su |-> 0, tn |-> 1, td |-> 1, sel |-> FALSE, cart |-> FALSE,
             names |-> <<>>, counts |-> <<>>, M |-> Id3, left |-> 0]
        /\ lines = <<>> /\ stage = "comment"
DoComment == /\ stage = "comment" /\ stage' = "scale" /\ f' = f
           /\ \E n \in Pick(0..3) : Add([i \in 1..n |-> Rn(Words)])
DoScale == /\ stage = "scale" /\ stage' = "vectors"
  /\ \E form \in Pick({"one", "pos", "pos", "vol", "three"}) : \E u \in Pick(0..2) : \E su \in Pick({0, 1, 3}) :
     \E M0 \in {TLCEval(RMat(6, 1))} : \E M1 \in {TLCEval(RMat(60, 1))} : \E t \in Pick({<<1, 1>>, <<1, 2>>, <<3, 2>>, <<2, 1>>, <<3, 1>>, <<5, 2>>}) :
       LET u1 == IF form = "vol" THEN u % 2 ELSE u
           m0 == IF Det(M0) = 0 THEN <<<<4, 0, 0>>, <<1, 3, 0>>, <<0, 1, 2>>>> ELSE M0
           m1 == IF Det(M1) = 0 THEN <<<<40, 0, 0>>, <<10, 35, 0>>, <<0, 10, 27>>>> ELSE M1
           M == IF form = "vol" THEN MScale(Pow10(u1), m0) ELSE m1
           s1 == IF form = "vol" THEN IF t[2] = 2 THEN 3 ELSE IF su = 3 THEN 3 ELSE 0 ELSE su
           pos == Rn({1, 2, 5, 12, 100, 543})
           vol == -(((t[1] * t[1] * t[1]) * (Abs(Det(m0)) * (IF s1 = 3 THEN 1000 ELSE 1))) \div (t[2] * t[2] * t[2]))
       IN  /\ f' = [f EXCEPT !.form = form, !.u = u1, !.su = s1, !.M = M,
                            !.tn = IF form = "vol" THEN t[1] ELSE 1, !.td = IF form = "vol" THEN t[2] ELSE 1]
           /\ Add(CASE form = "one" -> <<Rn({"1.0", "1", "1.000"})>>
                     [] form = "pos" -> <<Show(pos, s1)>>
                     [] form = "vol" -> <<Fmt(vol, s1)>>
                     [] form = "three" -> [i \in I3 |-> Show(Rn({1, 2, 7, 13, 105}), s1)])
DoVectors == /\ stage = "vectors" /\ f' = f
           /\ Add(ShowV(f.M[Len(lines) - 1], f.u))
           /\ stage' = IF Len(lines) = 4 THEN "species" ELSE "vectors"
DoSpecies == /\ stage = "species" /\ stage' = "counts"
           /\ \E n \in Pick(1..3) : \E has \in Pick({TRUE, TRUE, FALSE}) :
              \E names \in {TLCEval([i \in 1..n |-> Rn(Kinds)])} :
                /\ f' = [f EXCEPT !.names = IF has THEN names ELSE <<>>, !.left = n]
                /\ lines' = IF has THEN Append(lines, names) ELSE lines
DoCounts == /\ stage = "counts" /\ stage' = "selective"
          /\ \E c \in {TLCEval([i \in 1..f.left |-> IF Rn(1..15) = 1 THEN Rn({10, 11}) ELSE Rn({0, 1, 1, 2, 3})])} :
               LET d == IF SumTo(c, Len(c)) = 0 THEN [c EXCEPT ![1] = 1] ELSE c
               IN  f' = [f EXCEPT !.counts = d] /\ Add([i \in 1..Len(d) |-> ToString(d[i])])
DoSelective == /\ stage = "selective" /\ stage' = "mode"
             /\ \E sel \in Pick(BOOLEAN) :
                  /\ f' = [f EXCEPT !.sel = sel]
                  /\ lines' = IF sel THEN Append(lines, Rn({<<"Selective", "dynamics">>, <<"s">>, <<"S">>, <<"selective">>})) ELSE lines
DoMode == /\ stage = "mode" /\ stage' = "atoms"
        /\ \E cart \in Pick(BOOLEAN) :
             /\ f' = [f EXCEPT !.cart = cart, !.left = SumTo(f.counts, Len(f.counts))]
             /\ Add(IF cart THEN Rn({<<"Cartesian">>, <<"cart">>, <<"C">>, <<"c">>, <<"K">>, <<"k">>, <<"Kart">>, <<"Cartesian", "coordinates">>})
                            ELSE Rn({<<"Direct">>, <<"direct">>, <<"D">>, <<"d">>, <<"Direct", "lattice">>}))
DoAtoms == /\ stage = "atoms"
         /\ \E v \in {TLCEval(LET k == IF f.cart THEN 99 ELSE IF f.u = 0 THEN 1 ELSE 25 IN [i \in I3 |-> RandomElement((-k)..k)])} :
            \E more \in Pick({<<>>, <<"Fe">>, <<"#", "a">>}) :
              Add(ShowV(v, f.u) \o (IF f.sel THEN [i \in I3 |-> Rn({"T", "F"})] ELSE <<>>) \o more)
         /\ f' = [f EXCEPT !.left = @ - 1]
         /\ stage' = IF f.left = 1 THEN "trailing" ELSE "atoms"
DoTrailing == /\ stage = "trailing" /\ f' = f
            /\ \E k \in Pick({"end", "end", "blank", "velocity", "text"}) :
                 IF k = "end" THEN stage' = "end" /\ lines' = lines
                 ELSE /\ stage' = "trailing"
                      /\ Add(CASE k = "blank" -> <<>> [] k = "velocity" -> <<"0.0", "0.0", "0.0">> [] k = "text" -> <<"Cartesian">>)
GNext == DoComment \/ DoScale \/ DoVectors \/ DoSpecies \/ DoCounts \/ DoSelective \/ DoMode \/ DoAtoms \/ DoTrailing
GSpec == Init /\ [][GNext]_vars
RECURSIVE Expand(_, _)
Expand(c, i) == IF i = 0 THEN <<>> ELSE Expand(c, i - 1) \o [k \in 1..c[i] |-> i]
\* reading recovers what was meant
Meant == stage = "end" =>
  /\ WellFormed(lines) /\ HasSpecies(lines) = (f.names # <<>>) /\ Counts(lines) = f.counts
  /\ Selective(lines) = f.sel /\ Cartesian(lines) = f.cart /\ Matrix(lines, f.u) = f.M
  /\ LET g == Expand(f.counts, Len(f.counts))
     IN  Total(lines) = Len(g) /\ \A k \in 1..Len(g) : Group(lines, k) = g[k]
  /\ f.form = "vol" => VolumeFactor(lines, f.su, f.tn, f.td)
Emit == stage = "end" => PrintT("GEN " \o ToJson([lines |-> lines, u |-> f.u, su |-> f.su, tn |-> f.tn, td |-> f.td, form |-> f.form, cart |-> f.cart, M |-> f.M]))
=============================================================================
