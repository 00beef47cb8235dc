------------------------------- MODULE Sugar -------------------------------
(* Dictionaries with two ways of access.  An object is [sugar, at] where at   *)
(* is the sequence of entries <<key, value>> in order of insertion; "gone" is *)
(* no object.  Item access and attribute access are the same partial function.*)
EXTENDS Integers, Sequences, FiniteSets
Keys(o) == [i \in 1..Len(o.at) |-> o.at[i][1]]
Has(o, k) == \E i \in 1..Len(o.at) : o.at[i][1] = k
Pos(o, k) == CHOOSE i \in 1..Len(o.at) : o.at[i][1] = k
Get(o, k) == o.at[Pos(o, k)][2]
Put(o, k, v) == IF Has(o, k) THEN [o EXCEPT !.at[Pos(o, k)] = <<k, v>>] ELSE [o EXCEPT !.at = Append(@, <<k, v>>)]
Del(o, k) == [o EXCEPT !.at = SubSeq(@, 1, Pos(o, k) - 1) \o SubSeq(@, Pos(o, k) + 1, Len(@))]
SameEntries(o, p) == Len(o.at) = Len(p.at) /\ \A i \in 1..Len(o.at) : Has(p, o.at[i][1]) /\ Get(p, o.at[i][1]) = o.at[i][2]
Start == <<[sugar |-> TRUE, at |-> <<>>]>>
Ob(s, i) == ((i - 1) % Len(s)) + 1
\* attribute syntax is there for objects with sugar only
Way(s, op) == IF op.way = "attr" /\ ~s[Ob(s, op.i)].sugar THEN "item" ELSE op.way
Missing(way) == IF way = "attr" THEN "AttributeError" ELSE "KeyError"
\* [s, exc, val]: new state, exception, value (-1 for none)
R(s, exc, val) == [s |-> s, exc |-> exc, val |-> val]
Step(s, op) ==
  LET i == Ob(s, op.i)
      o == s[i]
      w == Way(s, op)
  IN
  CASE op.op = "get" -> IF Has(o, op.k) THEN R(s, "", Get(o, op.k)) ELSE R(s, Missing(w), -1)
    [] op.op = "set" -> R([s EXCEPT ![i] = Put(o, op.k, op.v)], "", -1)
    [] op.op = "del" -> IF Has(o, op.k) THEN R([s EXCEPT ![i] = Del(o, op.k)], "", -1) ELSE R(s, Missing(w), -1)
    [] op.op = "has" -> R(s, "", IF Has(o, op.k) THEN 1 ELSE 0)
    [] op.op = "default" -> R(s, "", IF Has(o, op.k) THEN Get(o, op.k) ELSE 99)
    [] op.op = "add" -> R(Append(s, [o EXCEPT !.sugar = TRUE]), "", -1)
    [] op.op = "remove" -> R(Append(s, [o EXCEPT !.sugar = FALSE]), "", -1)
    [] op.op = "copy" -> R(Append(s, o), "", -1)
    [] op.op = "bad" -> R(s, "ValueError", -1)
Consistent(s) == \A i \in 1..Len(s) : \A a, b \in 1..Len(s[i].at) : a # b => s[i].at[a][1] # s[i].at[b][1]
=============================================================================
