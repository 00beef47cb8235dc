------------------------------- MODULE Tables -------------------------------
(* What the tables of constants have to say (C26).                            *)
EXTENDS KPoints, Elements, FiniteSets, TLC
\* ----------------------------------------------------------- lattice types
SCShort(lt) ==
  CASE lt = "cP" -> "CUB" [] lt = "cF" -> "FCC" [] lt = "cI" -> "BCC" [] lt = "tP" -> "TET" [] lt = "tI" -> "BCT"
    [] lt = "oP" -> "ORC" [] lt = "oF" -> "ORCF" [] lt = "oI" -> "ORCI" [] lt \in {"oA", "oC"} -> "ORCC" [] lt = "hP" -> "HEX"
    [] lt = "hR" -> "RHL" [] lt = "mP" -> "MCL" [] lt = "mC" -> "MCLC" [] lt = "aP" -> "TRI"
\* words of the long name, in small letters
SCWords(lt) ==
  (CASE SubSeq(lt, 1, 1) = "c" -> {"cubic"} [] SubSeq(lt, 1, 1) = "t" -> {"tetragonal"} [] SubSeq(lt, 1, 1) = "o" -> {"orthorhombic"}
     [] SubSeq(lt, 1, 1) = "m" -> {"monoclinic"} [] SubSeq(lt, 1, 1) = "a" -> {"triclinic"} [] lt = "hP" -> {"hexagonal"} [] lt = "hR" -> {"rhombohedral"})
  \cup (CASE SubSeq(lt, 2, 2) = "F" -> {"face", "centered"} [] SubSeq(lt, 2, 2) = "I" -> {"body", "centered"}
          [] SubSeq(lt, 2, 2) \in {"C", "A"} -> {"c", "centered"} [] OTHER -> {})
\* letters of a text that begins with another one
Starts(v, t) == Len(v) >= Len(t) /\ SubSeq(v, 1, Len(t)) = t
VariationsOf(conv, lt) ==
  IF conv = "sc"
  THEN {v \in Variations("sc") :
          /\ Starts(v, SCShort(lt))
          \* longest short name that fits
          /\ \A m \in LatticeTypes : Starts(v, SCShort(m)) => Len(SCShort(m)) <= Len(SCShort(lt))}
  ELSE {v \in Variations("hpkot") : Starts(v, lt)}
\* ------------------------------------------------------------------- labels
Digits10 == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Primed(n) == Len(n) > 2 /\ SubSeq(n, Len(n) - 1, Len(n)) = "_P"
Core(n) == IF Primed(n) THEN SubSeq(n, 1, Len(n) - 2) ELSE n
Numbered(n) == SubSeq(Core(n), Len(Core(n)), Len(Core(n))) \in Digits10
Base(n) == IF Numbered(n) THEN SubSeq(Core(n), 1, Len(Core(n)) - 1) ELSE Core(n)
Greek(b) == CASE b = "GAMMA" -> "\\Gamma" [] b = "DELTA" -> "\\Delta" [] b = "SIGMA" -> "\\Sigma" [] b = "LAMBDA" -> "\\Lambda" [] OTHER -> b
\* label without dollars and braces
Label(n) == Greek(Base(n)) \o (IF Numbered(n) THEN "_" \o SubSeq(Core(n), Len(Core(n)), Len(Core(n))) ELSE "") \o (IF Primed(n) THEN "^\\prime" ELSE "")
RECURSIVE Plain(_)
Plain(t) == IF t = "" THEN "" ELSE (IF SubSeq(t, 1, 1) \in {"$", "{", "}", " "} THEN "" ELSE SubSeq(t, 1, 1)) \o Plain(SubSeq(t, 2, Len(t)))
RECURSIVE Dollars(_)
Dollars(t) == IF t = "" THEN 0 ELSE (IF SubSeq(t, 1, 1) = "$" THEN 1 ELSE 0) + Dollars(SubSeq(t, 2, Len(t)))
HasMath(n) == Numbered(n) \/ Primed(n) \/ Greek(Base(n)) # Base(n)
AllVariations == Variations("sc") \cup Variations("hpkot")
\* every name of a point that the library can return
PointNames(conv) == UNION {Names(Tab(TableOf(v))) \cup PathNames(Extended(PathOf(v))) : v \in Variations(conv)}
UsedNames == UNION {LET t == Names(Tab(TableOf(v))) IN t \cup {n \o "_P" : n \in t \ {"GAMMA"}} : v \in AllVariations}
\* ------------------------------------------------------------------ elements
\* atomic masses, rounded (mass number of the longest-lived isotope for the
\* unstable ones)
Masses == <<1, 4,
  7, 9, 11, 12, 14, 16, 19, 20,
  23, 24, 27, 28, 31, 32, 35, 40,
  39, 40, 45, 48, 51, 52, 55, 56, 59, 59, 64, 65,
  70, 73, 75, 79, 80, 84,
  85, 88, 89, 91, 93, 96, 98, 101, 103, 106, 108, 112,
  115, 119, 122, 128, 127, 131,
  133, 137, 139, 140, 141, 144, 145, 150, 152, 157, 159, 163, 165, 167, 169, 173, 175,
  178, 181, 184, 186, 190, 192, 195, 197, 201, 204, 207, 209, 209, 210, 222,
  223, 226, 227, 232, 231, 238, 237, 244, 243, 247, 247, 251, 252, 257, 258, 259, 266,
  267, 268, 269, 270, 270, 278, 281, 282, 285, 286, 289, 290, 293, 294, 294>>
Unstable(z) == z \in {43, 61} \/ z >= 84
\* mass in 1/1000 u
MassOK(z, m) == LET d == Abs(m - 1000 * Masses[z]) IN IF z >= 99 THEN d <= 5000 ELSE IF Unstable(z) THEN d <= 1500 ELSE d <= 700
Hex16 == Digits10 \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
ColorOK(c) == Len(c) \in {4, 7} /\ SubSeq(c, 1, 1) = "#" /\ \A i \in 2..Len(c) : SubSeq(c, i, i) \in Hex16
=============================================================================
