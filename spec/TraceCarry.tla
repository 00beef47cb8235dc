---------------------------- MODULE TraceCarry -----------------------------
(* C06: what is attached to the atoms travels with them.                    *)
(* r.desc.at[i] = <<grid point, identity>>, r.T[i] the type wulfric gives    *)
(* to atom i, r.vals[key][i] the value attached to it.                      *)
EXTENDS TraceLib, Lat
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
Source(r, t) == LastOf({i \in 1..Len(r.T) : r.T[i] = t})
OutClauses(r, o) ==
  LET t == ":" \o o.id
      n == Len(o.at)
      known == {r.T[i] : i \in 1..Len(r.T)}
      x == [cell |-> r.desc.cell,
            at |-> [i \in 1..Len(r.T) |-> <<r.desc.at[i][1], r.T[i]>>]]
  IN  IF o.exc # "" THEN {"Returns" \o t \o ":" \o o.exc}
      ELSE Fails("AllKeys" \o t,
                 {o.names[i] : i \in 1..Len(o.names)}
                   = {r.keys[i] : i \in 1..Len(r.keys)} \cup {"spglib_types"})
           \cup Fails("IntegerTypes" \o t, o.ints)
           \cup Fails("OneValuePerAtom" \o t,
                      o.keys /\ n > 0 /\ \A k \in DOMAIN o.vals : Len(o.vals[k]) = n)
           \cup Fails("TypesOfTheInput" \o t, \A j \in 1..n : o.at[j][2] \in known)
           \cup (IF ~o.keys \/ ~(\A j \in 1..n : o.at[j][2] \in known) THEN {}
                 ELSE Fails("ValuesOfLastAtomOfType" \o t,
                   \A k \in DOMAIN r.vals \cap DOMAIN o.vals :
                     Len(o.vals[k]) = n =>
                       \A j \in 1..n : o.vals[k][j] = r.vals[k][Source(r, o.at[j][2])])
                 \cup Fails("SameAtoms" \o t,
                            o.grid /\ Det(o.cell) # 0 /\ SameCrystal(x, o)))
           \cup Fails("AcceptedAgain" \o t, o.again = "")
Clauses(r) ==
  IF r.exc # "" THEN {"TypesDeduced"}
  ELSE Fails("TypesFollowIdentity",
             \A i, j \in 1..Len(r.T) :
               (r.T[i] = r.T[j]) <=> (r.desc.at[i][2] = r.desc.at[j][2]))
       \cup (IF "spglib_types" \in DOMAIN r.vals
             THEN Fails("TypesAsGiven",
                        \A i \in 1..Len(r.T) : ToString(r.T[i]) = r.vals["spglib_types"][i])
             ELSE {})
       \cup UNION {OutClauses(r, r.outs[k]) : k \in 1..Len(r.outs)}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
