------------------------------ MODULE MCTables -----------------------------
(* The reference tables agree with one another.  One state per space group,   *)
(* lattice type, variation and point name.                                    *)
EXTENDS Tables
VARIABLE at
Init == at = <<"start">>
Next == at = <<"start">> /\
        \/ \E n \in SGs : at' = <<"group", n>>
        \/ \E m \in LatticeTypes : at' = <<"lattice", m>>
        \/ \E c \in {"sc", "hpkot"} : \E v \in Variations(c) : at' = <<"variation", c, v>>
        \/ \E n \in UsedNames : at' = <<"name", n>>
        \/ \E z \in 1..118 : at' = <<"element", z>>
Spec == Init /\ [][Next]_at
Six == MScale(6, Id3)
Counts ==
  at = <<"start">> =>
    /\ Cardinality(LatticeTypes) = 15 /\ Cardinality({LatticeType(n) : n \in SGs}) = 15
    /\ {LatticeType(n) : n \in SGs} = LatticeTypes
    \* 92 groups have an inversion; 73 are symmorphic, not judged here
    /\ Cardinality({n \in SGs : Inversion(n)}) = 92
    /\ \A p \in {<<"a", 2>>, <<"m", 13>>, <<"o", 59>>, <<"t", 68>>, <<"h", 52>>, <<"c", 36>>} : Cardinality({n \in SGs : Family(n) = p[1]}) = p[2]
    /\ Len(Elements) = 118 /\ Cardinality(ElementSet) = 118 /\ Len(Masses) = 118
    /\ Cardinality(Variations("sc")) = 25 /\ Cardinality(Variations("hpkot")) = 29
    /\ \A n, m \in UsedNames : Label(n) = Label(m) => n = m
    /\ UNION {VariationsOf("sc", m) : m \in LatticeTypes} = Variations("sc")
    /\ UNION {VariationsOf("hpkot", m) : m \in LatticeTypes} = Variations("hpkot")
Lattices ==
  at[1] = "lattice" => \A c \in {"sc", "hpkot"} :
    LET M == Matrix6(c, at[2]) IN
    /\ Det(M) * PointsIn(c, at[2]) = 216
    \* conventional vectors are integer combinations of primitive ones
    /\ LET A == Adj(M) IN \A i, j \in 1..3 : (A[i][j] * 6) % Det(M) = 0
    /\ VariationsOf(c, at[2]) # {}
\* inversion: the two symbols of a type with and without it differ in the path
Variants ==
  at[1] = "variation" =>
    LET v == at[3] IN
    /\ PathNames(PathOf(v)) \subseteq Names(Tab(TableOf(v)))
    /\ "GAMMA" \in PathNames(PathOf(v))
    /\ \A i \in 1..Len(PathOf(v)) : Len(PathOf(v)[i]) >= 2 /\ \A j \in 1..(Len(PathOf(v)[i]) - 1) : PathOf(v)[i][j] # PathOf(v)[i][j + 1]
    /\ PathNames(Extended(PathOf(v))) \subseteq UsedNames
Labels ==
  at[1] = "name" => /\ Len(Base(at[2])) >= 1 /\ Plain(Label(at[2])) = Label(at[2])
                    /\ Greek(Base(at[2])) # Base(at[2]) \/ Len(Base(at[2])) = 1
                    /\ Primed(at[2]) => Core(at[2]) \in UsedNames
\* masses grow, but for pairs known to chemists
Growing == at[1] = "element" => LET z == at[2] IN z > 1 /\ Masses[z] < Masses[z - 1] => z \in {19, 28, 53, 91, 93, 95}
=============================================================================
