------------------------------ MODULE Validate ------------------------------
(* What a well-formed dictionary of atoms is.  A dictionary is a sequence of  *)
(* entries [key, kind, n, items, shape]:                                      *)
(*   kind  "seq" (something with n elements) or "nolen" (no length)           *)
(*   items for names/species/spglib_types: what every element is, as text     *)
(*         "s:<text>" a string, "i:<k>" an integer, anything else otherwise   *)
(*   shape for positions: the shape of the array, <<-1>> when it is ragged    *)
EXTENDS Integers, Sequences, FiniteSets, Elements
Keys(d) == {d[i].key : i \in 1..Len(d)}
Entry(d, k) == LET i == CHOOSE j \in 1..Len(d) : d[j].key = k IN d[i]
NoLength(d) == \E i \in 1..Len(d) : d[i].kind = "nolen"
LengthsDiffer(d) ==
  Cardinality({d[i].n : i \in {j \in 1..Len(d) : d[j].kind = "seq"}}) > 1
Missing(d, required) == ~(required \subseteq Keys(d))
IsText(x) == Len(x) >= 2 /\ SubSeq(x, 1, 2) = "s:"
TextOf(x) == SubSeq(x, 3, Len(x))
Has(d, k) == k \in Keys(d) /\ Entry(d, k).kind = "seq"
NamesBad(d) == Has(d, "names") /\ \E i \in 1..Len(Entry(d, "names").items) : ~IsText(Entry(d, "names").items[i])
SpeciesBad(d) ==
  Has(d, "species") /\ \E i \in 1..Len(Entry(d, "species").items) :
     LET x == Entry(d, "species").items[i]
     IN  ~IsText(x) \/ ~(TextOf(x) = "X" \/ TextOf(x) \in ElementSet)
PositiveInts == {"i:1", "i:2", "i:3", "i:7", "i:118"}
TypesBad(d) ==
  Has(d, "spglib_types") /\ \E i \in 1..Len(Entry(d, "spglib_types").items) :
     Entry(d, "spglib_types").items[i] \notin PositiveInts
PositionsBad(d) ==
  Has(d, "positions") /\ LET s == Entry(d, "positions").shape IN Len(s) # 2 \/ s[2] # 3
ValueFault(d, required) ==
  \/ LengthsDiffer(d) \/ Missing(d, required)
  \/ NamesBad(d) \/ SpeciesBad(d) \/ TypesBad(d) \/ PositionsBad(d)
WellFormed(d, required) == ~NoLength(d) /\ ~ValueFault(d, required)
\* exceptions that may be raised
Errors(d, required) ==
  (IF NoLength(d) THEN {"TypeError"} ELSE {})
  \cup (IF ValueFault(d, required) THEN {"ValueError"} ELSE {})
=============================================================================
