------------------------------ MODULE Bravais ------------------------------
(* Crystallography of the 230 space groups (International Tables, vol. A):   *)
(* crystal family, centring of the standard setting, inversion symmetry; and *)
(* the conventional-to-primitive matrices of the two conventions (times 6).  *)
EXTENDS Integers, Sequences

SGs == 1..230
Family(sg) ==
  IF sg <= 2 THEN "a" ELSE IF sg <= 15 THEN "m" ELSE IF sg <= 74 THEN "o"
  ELSE IF sg <= 142 THEN "t" ELSE IF sg <= 194 THEN "h" ELSE "c"
CentredC == {5, 8, 9, 12, 15, 20, 21, 35, 36, 37} \cup 63..68
CentredA == 38..41
CentredI == {23, 24, 44, 45, 46, 79, 80, 82, 87, 88, 97, 98, 197, 199, 204, 206,
             211, 214, 217, 220, 229, 230}
            \cup 71..74 \cup 107..110 \cup 119..122 \cup 139..142
CentredF == {22, 42, 43, 69, 70, 196, 202, 203, 209, 210, 216, 219} \cup 225..228
CentredR == {146, 148, 155, 160, 161, 166, 167}
Centring(sg) ==
  IF sg \in CentredC THEN "C" ELSE IF sg \in CentredA THEN "A"
  ELSE IF sg \in CentredI THEN "I" ELSE IF sg \in CentredF THEN "F"
  ELSE IF sg \in CentredR THEN "R" ELSE "P"
LatticeType(sg) == Family(sg) \o Centring(sg)
Inversion(sg) ==
  sg \in {2} \cup 10..15 \cup 47..74 \cup 83..88 \cup 123..142
         \cup {147, 148} \cup 162..167 \cup {175, 176} \cup 191..194 \cup 200..206
         \cup 221..230
LatticeTypes == {"cP", "cF", "cI", "tP", "tI", "oP", "oF", "oI", "oA", "oC", "hP",
                 "hR", "mP", "mC", "aP"}
\* lattice points of the conventional cell
PointsOf(lt) == CASE lt \in {"cF", "oF"} -> 4
                  [] lt = "hR" -> 3
                  [] lt \in {"cI", "tI", "oI", "oA", "oC", "mC"} -> 2
                  [] OTHER -> 1

LOCAL MP == <<<<6, 0, 0>>, <<0, 6, 0>>, <<0, 0, 6>>>>
LOCAL MF == <<<<0, 3, 3>>, <<3, 0, 3>>, <<3, 3, 0>>>>
LOCAL MI == <<<<-3, 3, 3>>, <<3, -3, 3>>, <<3, 3, -3>>>>
\* P with (p1 p2 p3) = (a1 a2 a3) P / 6, columns are the primitive vectors
HPKOTMatrix6(lt) ==
  CASE lt \in {"cF", "oF"} -> MF
    [] lt \in {"cI", "tI", "oI"} -> MI
    [] lt = "oC" -> <<<<3, 3, 0>>, <<-3, 3, 0>>, <<0, 0, 6>>>>
    [] lt = "oA" -> <<<<0, 0, 6>>, <<3, 3, 0>>, <<-3, 3, 0>>>>
    [] lt = "hR" -> <<<<4, -2, -2>>, <<2, 2, -4>>, <<2, 2, 2>>>>
    [] lt = "mC" -> <<<<3, -3, 0>>, <<3, 3, 0>>, <<0, 0, 6>>>>
    [] OTHER -> MP
SCMatrix6(lt) ==
  CASE lt \in {"cF", "oF"} -> MF
    [] lt \in {"cI", "tI", "oI"} -> MI
    [] lt \in {"oC", "oA"} -> <<<<3, 3, 0>>, <<-3, 3, 0>>, <<0, 0, 6>>>>
    [] lt = "mC" -> <<<<3, -3, 0>>, <<3, 3, 0>>, <<0, 0, 6>>>>
    [] OTHER -> MP
Matrix6(conv, lt) == IF conv = "sc" THEN SCMatrix6(lt) ELSE HPKOTMatrix6(lt)
\* lattice points of the conventional cell in the given convention
PointsIn(conv, lt) == IF conv = "sc" /\ lt = "hR" THEN 1 ELSE PointsOf(lt)
=============================================================================
