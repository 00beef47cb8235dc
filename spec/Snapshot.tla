------------------------------ MODULE Snapshot ------------------------------
(* Symmetry data as a snapshot.  Memory holds the caller's input (cell,       *)
(* positions, types: each one of several values), data objects made of it and *)
(* results returned by calls.  Every data object remembers the values it was  *)
(* made of, for ever; a call compares them with the values passed now.        *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [in |-> <<1, 1, 1>>, data |-> <<>>, results |-> 0]
\* which data a call is given: 0 nothing, 9 an object of another kind
Given(s, op) == IF op.d = 9 \/ op.d = 0 THEN op.d ELSE IF Len(s.data) = 0 THEN 0 ELSE ((op.d - 1) % Len(s.data)) + 1
Outcome(s, op) ==
  LET g == Given(s, op)
  IN  IF g = 0 THEN "result" ELSE IF g = 9 THEN "TypeError"
      ELSE IF s.data[g] = s.in THEN "result" ELSE "ValueError"
Step(s, op) ==
  CASE op.op = "set" -> [s EXCEPT !.in[op.part] = op.v]      \* in place, in the caller's objects
    [] op.op = "form" -> s                                    \* the same values in other objects
    [] op.op = "data" -> [s EXCEPT !.data = Append(@, s.in)]
    [] op.op = "call" -> IF Outcome(s, op) = "result" THEN [s EXCEPT !.results = @ + 1] ELSE s
    [] op.op = "spoil" -> [s EXCEPT !.results = 0]            \* every returned object is overwritten
    [] op.op = "assign" -> s                                  \* refused
=============================================================================
