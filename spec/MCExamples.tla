----------------------------- MODULE MCExamples ----------------------------
(* Names: every documented one has its own structure and no other text has     *)
(* one.  Constructors: the cell generates the lattice of the convention, and   *)
(* the closed forms of its components agree with its metric.  The library:     *)
(* Shared = TRUE hands out its own structure (a fault), which must break       *)
(* Contents.                                                                   *)
EXTENDS Examples
CONSTANTS Shared, Depth
VARIABLES at, s, c, n, known
vars == <<at, s, c, n, known>>
\* contents: own[i] = number of the changes seen in structure i
Gets == {[op |-> "get", conv |-> q[1], name |-> q[2], inv |-> q[3], str |-> TRUE] :
            q \in {<<"sc", "tri", FALSE>>, <<"sc", "TRI1a", TRUE>>, <<"sc", "tri1", FALSE>>, <<"hpkot", "oF", FALSE>>,
                   <<"hpkot", "oF1", FALSE>>, <<"hpkot", "oF1", TRUE>>, <<"hpkot", "oF2", TRUE>>, <<"hpkot", "of1", FALSE>>}}
Params3 == {<<a, b, cc>> : a \in {5, 8}, b \in {7, 10}, cc \in {6, 12}}
Init == at = <<"start">> /\ s = <<>> /\ c = <<>> /\ n = 0 /\ known = {}
Look == /\ at = <<"start">> /\ s = <<>> /\ UNCHANGED <<s, c, n, known>>
        /\ \/ \E v \in Variations("sc") : at' = <<"sc", v>>
           \/ \E v \in Variations("hpkot") : at' = <<"hpkot", v>>
           \/ \E m \in LatticeTypes : at' = <<"type", m>>
           \/ \E f \in FamiliesSC \ {"TRI"} : \E p \in Params3 : \E k \in (-9..19) : at' = <<"cell", f, p \o <<k, k, k>>>>
Use == /\ at = <<"start">> /\ n < Depth /\ n' = n + 1 /\ UNCHANGED at
       /\ \/ \E op \in Gets :
               LET r == Apply(s, op) IN
               /\ s' = r.s
               /\ c' = IF r.exc # "" THEN c
                       ELSE LET same == {j \in 1..Len(s) : s[j].key = KeyOf(op)}
                            IN  Append(c, <<KeyOf(op), IF Shared /\ same # {} THEN c[CHOOSE j \in same : TRUE][2] ELSE 0>>)
          \/ \E i \in 1..Len(s) :
               /\ s' = Apply(s, [op |-> "change", i |-> i]).s
               /\ c' = [j \in 1..Len(c) |-> IF j = i \/ (Shared /\ s[j].key = s[i].key) THEN <<c[j][1], c[j][2] + 1>> ELSE c[j]]
       /\ known' = Learn(known, s', c')
Next == Look \/ Use
Spec == Init /\ [][Next]_vars
LibraryKeeps == Contents(known, s, c)
NamesResolve ==
  /\ at[1] = "sc" => SCResolve(at[2]) = at[2] /\ SCResolve(Small(at[2])) = at[2] /\ HPKOTResolve(at[2], FALSE) = Refused
  /\ at[1] = "hpkot" => HPKOTResolve(at[2], FALSE) = at[2] /\ HPKOTResolve(at[2], TRUE) \in {at[2], Refused}
                        /\ (Small(at[2]) # at[2] => HPKOTResolve(Small(at[2]), FALSE) = Refused) /\ SCResolve(at[2]) = Refused
  /\ at[1] = "type" => /\ SCResolve(SCShort(at[2])) \in VariationsOf("sc", IF at[2] = "oA" THEN "oC" ELSE at[2])
                       /\ HPKOTResolve(at[2], FALSE) \in VariationsOf("hpkot", at[2])
                       /\ (at[2] # "oA" => HPKOTResolve(at[2], TRUE) # Refused)
CellsAreRight ==
  at[1] = "cell" =>
    LET f == at[2] p == at[3]
        ok == f # "RHL" \/ p[4] > -10
        e == ClosedForm(f, p) G == CellGram80(f, p)
    IN  /\ Det(RowsTwice(f)) > 0
        /\ IF f = "RHL" THEN TRUE  \* its own primitive cell is the conventional one
           ELSE SameLattice(MScale(3, RowsTwice(f)), Transp(SCMatrix6(LatticeOf(f))))
        \* squares of the components of a vector add up to the square of its length
        /\ ok => \A i \in I3 : REq(RAdd(RAdd(Frac(Abs(e[i][1][1]), e[i][1][2]), Frac(Abs(e[i][2][1]), e[i][2][2])), Frac(Abs(e[i][3][1]), e[i][3][2])), Frac(G[i][i], 80))
=============================================================================
