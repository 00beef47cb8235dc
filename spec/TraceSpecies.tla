---------------------------- MODULE TraceSpecies ----------------------------
(* C15: names, the species deduced from them and the types of the atoms.      *)
EXTENDS TraceLib, Species
NameClauses(o) ==
  LET S == SpeciesOf(o.chars)
  IN  IF S = {"X"}
      THEN Fails("FallsBackToX", o.species = "X" /\ o.exc = "")
           \cup Fails("Warned", o.exc # "" \/ o.warned)
           \cup Fails("RaisesOnRequest:" \o o.strictexc, o.strictexc = "FailedToDeduceAtomSpecies")
      ELSE Fails("Deduced", o.exc = "" /\ o.species \in S)
           \cup Fails("DeducedWhenStrict", o.strictexc = "" /\ o.strict = o.species)
           \cup Fails("NotWarned", ~o.warned)
Identity(r) ==
  CASE r.first = "types" -> r.ids
    [] r.first = "species" -> r.ids
    [] r.first = "names" -> [i \in 1..Len(r.names) |->
         IF SpeciesOf(r.names[i].chars) = {"X"} THEN "name:" \o r.ids[i] ELSE r.names[i].species]
TypeClauses(r) ==
  IF r.first = "none" THEN Fails("NoSourceRefused:" \o r.exc, r.exc = "ValueError")
  ELSE IF r.exc # "" THEN {"TypesReturn:" \o r.exc}
  ELSE Fails("SameTypeIffSameIdentity", SameSame(Identity(r), r.types))
       \cup Fails("TypesPositive", \A i \in 1..Len(r.types) : r.types[i] >= 1)
       \cup Fails("TypesKept", r.first = "types" => r.types = r.given)
       \cup Fails("AcceptedAsInput", r.again)
       \cup Fails("Unchanged", r.kept)
Clauses(r) ==
  UNION {NameClauses(r.names[k]) : k \in 1..Len(r.names)}
  \cup Fails("ListOfSpecies", r.list = [k \in 1..Len(r.names) |-> r.names[k].species])
  \cup Fails("StrictListOfSpecies", r.slist = IF \E k \in 1..Len(r.names) : r.names[k].strictexc # ""
                                           THEN <<"!FailedToDeduceAtomSpecies">> ELSE r.list)
  \cup TypeClauses(r)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
