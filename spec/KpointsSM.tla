----------------------------- MODULE KpointsSM -----------------------------
(***************************************************************************)
(* wulfric.Kpoints as a state machine: two objects (a copy of one may        *)
(* replace the other), and the operations on them.  Coordinates are tokens   *)
(* (the harness maps token t to a fixed vector).                             *)
(***************************************************************************)
EXTENDS PathCodec, FiniteSets, TLC

\* a fresh object
Nothing == [names |-> <<>>, co |-> <<>>, la |-> <<>>, path |-> <<>>, n |-> 100, cell |-> 1]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PathNamesOf(p) == UNION {RangeOf(p[i]) : i \in 1..Len(p)}
\* points on the path of object o
Used(o) == PathNamesOf(o.path)
Ok(o) == [o |-> o, exc |-> ""]
Refuse(o) == [o |-> o, exc |-> "ValueError"]

SetPath(o, p) ==
  IF (\A i \in 1..Len(p) : Len(p[i]) >= 2) /\ PathNamesOf(p) \subseteq RangeOf(o.names)
  THEN Ok([o EXCEPT !.path = p]) ELSE Refuse(o)
Digit(i) == CASE i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> "4" [] i = 5 -> "5"
              [] i = 6 -> "6" [] OTHER -> "?"
\* the constructor; op.hasn, op.hasl, op.hasp tell which arguments are given
Construct(old, op) ==
  LET m == Len(op.co)
      names == IF op.hasn THEN op.names ELSE [i \in 1..m |-> "K" \o Digit(i)]
      labels == IF op.hasl THEN op.la
                ELSE IF op.hasn THEN op.names ELSE [i \in 1..m |-> "K$_" \o Digit(i) \o "$"]
      o == [names |-> names, co |-> op.co, la |-> labels, path |-> <<>>, n |-> op.n, cell |-> op.cell]
  IN  IF Len(names) # m \/ Len(labels) # m \/ Cardinality(RangeOf(names)) # Len(names) THEN Refuse(old)
      ELSE IF ~op.hasp THEN Ok([o EXCEPT !.path = IF m > 1 THEN <<names>> ELSE <<>>])
      ELSE LET r == SetPath(o, op.path) IN IF r.exc = "" THEN r ELSE Refuse(old)

\* the effect of operation op on the object o it is applied to
Apply(o, op) ==
  CASE op.op = "new" -> Construct(o, op)
    [] op.op = "add" ->
         IF op.name \in RangeOf(o.names) THEN Refuse(o)
         ELSE Ok([o EXCEPT !.names = Append(@, op.name), !.co = Append(@, op.c),
                           !.la = Append(@, IF op.la = "" THEN op.name ELSE op.la)])
    [] op.op = "remove" ->
         IF op.name \notin RangeOf(o.names) THEN Ok(o)
         ELSE LET i == IndexOf(o.names, op.name)
              IN  Ok([o EXCEPT !.names = Without(@, i), !.co = Without(@, i),
                               !.la = Without(@, i)])
    [] op.op = "text" -> IF TooShort(op.text) THEN Refuse(o) ELSE SetPath(o, Parse(op.text))
    [] op.op = "list" -> SetPath(o, op.path)
    [] op.op = "n" -> Ok([o EXCEPT !.n = op.n])
    [] op.op = "badn" -> Refuse(o)
    [] op.op \in {"mutate", "read"} -> Ok(o)
    \* the user changes a public attribute of the object in place
    [] op.op = "poke" -> IF op.name \notin RangeOf(o.names) THEN Ok(o)
                         ELSE Ok([o EXCEPT !.co[IndexOf(o.names, op.name)] = op.c, !.la[IndexOf(o.names, op.name)] = op.la])
    [] op.op = "cell" -> Ok([o EXCEPT !.cell = op.c])

\* both objects after the operation: "copy" replaces the other object
Step(objs, op) ==
  IF op.op = "copy" THEN [objs |-> [objs EXCEPT ![3 - op.i] = objs[op.i]], exc |-> ""]
  ELSE LET r == Apply(objs[op.i], op) IN [objs |-> [objs EXCEPT ![op.i] = r.o], exc |-> r.exc]

\* removing a point that the path uses (see known findings)
RemovesUsed(objs, op) ==
  op.op = "remove" /\ op.name \in RangeOf(objs[op.i].names) /\ op.name \in Used(objs[op.i])

(* ------------------------------ invariants ------------------------------ *)
Consistent(o) ==
  /\ Len(o.names) = Len(o.co) /\ Len(o.names) = Len(o.la)
  /\ Cardinality(RangeOf(o.names)) = Len(o.names)
  /\ Used(o) \subseteq RangeOf(o.names)
  /\ \A i \in 1..Len(o.path) : Len(o.path[i]) >= 2
=============================================================================
