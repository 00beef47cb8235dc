------------------------------ MODULE Examples -----------------------------
(***************************************************************************)
(* Example structures (C27): which name stands for which structure, what a  *)
(* structure with that name has to be, a library whose examples are handed   *)
(* out and changed by its users, and the constructors of the primitive cells *)
(* of Setyawan and Curtarolo.                                                *)
(***************************************************************************)
EXTENDS Tables

(* ---------------------------------- names -------------------------------- *)
SmallOf == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i",
            J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r",
            S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
RECURSIVE Small(_)
Small(t) == IF t = "" THEN ""
            ELSE LET c == SubSeq(t, 1, 1) IN (IF c \in DOMAIN SmallOf THEN SmallOf[c] ELSE c) \o Small(SubSeq(t, 2, Len(t)))
Refused == "ValueError"
\* the variation that stands for the whole lattice type
FirstVariation(lt) ==
  CASE lt = "tI" -> "BCT1" [] lt = "oF" -> "ORCF1" [] lt = "hR" -> "RHL1" [] lt = "mC" -> "MCLC1" [] lt = "aP" -> "TRI1a"
    [] OTHER -> SCShort(lt)
SCResolve(s) ==
  LET t == Small(s)
      V == {v \in Variations("sc") : Small(v) = t}
      L == {m \in LatticeTypes : Small(SCShort(m)) = t}
  IN  IF V # {} THEN CHOOSE v \in V : TRUE
      ELSE IF L # {} THEN FirstVariation(CHOOSE m \in L : TRUE) ELSE Refused
NoInversionExample == {"oF2", "oI2", "oA1", "oA2"}
HPKOTResolve(s, inv) ==
  LET v == IF s \in Variations("hpkot") THEN s
           ELSE IF s \in LatticeTypes THEN (IF s = "aP" THEN "aP2" ELSE s \o "1") ELSE Refused
  IN  IF inv /\ v \in NoInversionExample THEN Refused ELSE v
\* op: a request; the name of what it is answered with
Answer(op) ==
  IF ~op.str THEN Refused
  ELSE IF op.conv = "sc" THEN SCResolve(op.name) ELSE HPKOTResolve(op.name, op.inv)
KeyOf(op) == <<op.conv, Answer(op), op.conv = "hpkot" /\ op.inv>>

(* ---------------------- the library and its customers -------------------- *)
\* a state is a sequence of the structures handed out
\*   [key, dirty]
Apply(s, op) ==
  CASE op.op = "get" -> IF Answer(op) = Refused THEN [s |-> s, exc |-> Refused]
                        ELSE [s |-> Append(s, [key |-> KeyOf(op), dirty |-> FALSE]), exc |-> ""]
    [] op.op = "change" -> [s |-> IF s = <<>> THEN s ELSE [s EXCEPT ![((op.i - 1) % Len(s)) + 1].dirty = TRUE], exc |-> ""]
\* what is known about the contents: known is a set of <<key, contents>>.
\* c[i] are the contents of structure i now.
Clean(s, c) == {<<s[i].key, c[i]>> : i \in {j \in 1..Len(s) : ~s[j].dirty}}
Keys(known) == {x[1] : x \in known}
Learn(known, s, c) == known \cup {x \in Clean(s, c) : x[1] \notin Keys(known)}
\* nobody sees the changes of somebody else: an unchanged structure has the
\* contents that its name had the first time, and no other name has these
Contents(known, s, c) ==
  /\ Len(c) = Len(s)
  /\ Clean(s, c) \subseteq known
  /\ \A x, y \in known : x[1] = y[1] <=> x[2] = y[2]

(* ------------------------------ constructors ----------------------------- *)
\* lengths a, b, c in tenths, cosines of the three angles in 1/20
FamiliesSC == {"CUB", "FCC", "BCC", "TET", "BCT", "ORC", "ORCF", "ORCI", "ORCC", "HEX", "RHL", "MCL", "MCLC", "TRI"}
LatticeOf(f) == CHOOSE m \in LatticeTypes \ {"oA"} : SCShort(m) = f
\* rows of the cell in terms of the conventional vectors, times two
RowsTwice(f) ==
  CASE f \in {"FCC", "ORCF"} -> <<<<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>>>
    [] f \in {"BCC", "BCT", "ORCI"} -> <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>
    [] f = "ORCC" -> <<<<1, -1, 0>>, <<1, 1, 0>>, <<0, 0, 2>>>>
    [] f = "MCLC" -> <<<<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 2>>>>
    [] OTHER -> MScale(2, Id3)
\* metric of the conventional cell, in 1/100 of 1/20
ConvGram20(f, p) ==
  LET a == p[1] b == IF f \in {"CUB", "FCC", "BCC", "TET", "BCT", "HEX", "RHL"} THEN a ELSE p[2]
      c == IF f \in {"CUB", "FCC", "BCC", "RHL"} THEN a ELSE p[3]
      x == CASE f \in {"RHL", "MCL", "MCLC", "TRI"} -> p[4] [] OTHER -> 0
      y == CASE f = "RHL" -> p[4] [] f = "TRI" -> p[5] [] OTHER -> 0
      z == CASE f = "RHL" -> p[4] [] f = "TRI" -> p[6] [] f = "HEX" -> -10 [] OTHER -> 0
  IN  <<<<20 * a * a, a * b * z, a * c * y>>, <<a * b * z, 20 * b * b, b * c * x>>, <<a * c * y, b * c * x, 20 * c * c>>>>
\* metric of the cell in 1/100 of 1/80
CellGram80(f, p) == Gram(RowsTwice(f), ConvGram20(f, p))
\* x*|x| of every component as a fraction
LOCAL O == <<0, 1>>
LOCAL Q4(x) == <<x * x, 4>>
LOCAL M4(x) == <<-(x * x), 4>>
LOCAL Q1(x) == <<x * x, 1>>
LOCAL Sg(k, n, d) == <<Sgn(k) * n, d>>
ClosedForm(f, p) ==
  LET a == p[1] b == p[2] c == p[3] k == p[4] IN
  CASE f = "CUB" -> <<<<Q1(a), O, O>>, <<O, Q1(a), O>>, <<O, O, Q1(a)>>>>
    [] f = "FCC" -> <<<<O, Q4(a), Q4(a)>>, <<Q4(a), O, Q4(a)>>, <<Q4(a), Q4(a), O>>>>
    [] f = "BCC" -> <<<<M4(a), Q4(a), Q4(a)>>, <<Q4(a), M4(a), Q4(a)>>, <<Q4(a), Q4(a), M4(a)>>>>
    [] f = "TET" -> <<<<Q1(a), O, O>>, <<O, Q1(a), O>>, <<O, O, Q1(c)>>>>
    [] f = "BCT" -> <<<<M4(a), Q4(a), Q4(c)>>, <<Q4(a), M4(a), Q4(c)>>, <<Q4(a), Q4(a), M4(c)>>>>
    [] f = "ORC" -> <<<<Q1(a), O, O>>, <<O, Q1(b), O>>, <<O, O, Q1(c)>>>>
    [] f = "ORCF" -> <<<<O, Q4(b), Q4(c)>>, <<Q4(a), O, Q4(c)>>, <<Q4(a), Q4(b), O>>>>
    [] f = "ORCI" -> <<<<M4(a), Q4(b), Q4(c)>>, <<Q4(a), M4(b), Q4(c)>>, <<Q4(a), Q4(b), M4(c)>>>>
    [] f = "ORCC" -> <<<<Q4(a), M4(b), O>>, <<Q4(a), Q4(b), O>>, <<O, O, Q1(c)>>>>
    [] f = "HEX" -> <<<<Q4(a), <<-(3 * a * a), 4>>, O>>, <<Q4(a), <<3 * a * a, 4>>, O>>, <<O, O, Q1(c)>>>>
    [] f = "RHL" -> \* cos^2(alpha/2) = (20 + k) / 40
         <<<<<<a * a * (20 + k), 40>>, <<-(a * a * (20 - k)), 40>>, O>>,
           <<<<a * a * (20 + k), 40>>, <<a * a * (20 - k), 40>>, O>>,
           <<Sg(k, a * a * k * k, 10 * (20 + k)), O, <<a * a * (200 + 10 * k - k * k), 10 * (20 + k)>>>>>>
    [] f = "MCL" -> <<<<Q1(a), O, O>>, <<O, Q1(b), O>>, <<O, Sg(k, c * c * k * k, 400), <<c * c * (400 - k * k), 400>>>>>>
    [] f = "MCLC" -> <<<<Q4(a), Q4(b), O>>, <<M4(a), Q4(b), O>>, <<O, Sg(k, c * c * k * k, 400), <<c * c * (400 - k * k), 400>>>>>>
FormScale == 1000
\* o: observed x*|x| in tenths^2 / FormScale
InForm(f, p, o) ==
  LET e == ClosedForm(f, p)
  IN  \A i, j \in I3 : Abs(o[i][j] * e[i][j][2] - FormScale * e[i][j][1]) <= e[i][j][2] + 1
\* a first vector along x, a second one in the upper half of the xy plane, z > 0
Triangular(o) == /\ o[1][1] > 0 /\ o[1][2] = 0 /\ o[1][3] = 0 /\ o[2][2] > 0 /\ o[2][3] = 0 /\ o[3][3] > 0
=============================================================================
