---------------------------- MODULE MCKpointsSM ----------------------------
(* All histories of a small alphabet of operations, to a bounded depth.      *)
EXTENDS KpointsSM
CONSTANT Depth
VARIABLES objs, k, last
Names == {"A", "B"}
PathsL == {<<>>, <<<<"A", "B">>>>, <<<<"A">>>>, <<<<"B", "A", "B">>, <<"A", "B">>>>, <<<<"A", "C">>>>}
Ops ==
  [op : {"add"}, i : 1..2, name : Names, c : 1..2, la : {""}]
  \cup [op : {"remove"}, i : 1..2, name : Names]
  \cup [op : {"list"}, i : 1..2, path : PathsL]
  \cup [op : {"text"}, i : 1..2, text : {"A-B", "A", "A-B|B-A", "A-C"}]
  \cup [op : {"n"}, i : 1..2, n : {1, 5}]
  \cup [op : {"copy"}, i : 1..2]
  \cup [op : {"poke"}, i : 1..2, name : {"A"}, c : {2}, la : {"q"}]
  \cup [op : {"cell"}, i : 1..2, c : {2}]
  \cup [op : {"new"}, i : {1}, co : {<<1, 2>>}, hasn : {TRUE}, names : {<<"A", "B">>, <<"A">>},
        hasl : {FALSE}, la : {<<>>}, hasp : BOOLEAN, path : {<<<<"B", "A">>>>, <<<<"A", "Z">>>>}, n : {2}, cell : {3}]
Init == objs = <<Nothing, Nothing>> /\ k = 0 /\ last = [exc |-> "", i |-> 1]
Next ==
  /\ k < Depth
  /\ \E op \in Ops :
       /\ ~RemovesUsed(objs, op)
       /\ LET s == Step(objs, op)
          IN  objs' = s.objs /\ last' = [exc |-> s.exc, i |-> IF op.op = "copy" THEN 3 - op.i ELSE op.i]
  /\ k' = k + 1
Spec == Init /\ [][Next]_<<objs, k, last>>
AllConsistent == Consistent(objs[1]) /\ Consistent(objs[2])
\* a rejected operation changes nothing; an operation touches one object
Atomic == [][last'.exc # "" => objs' = objs]_<<objs, k, last>>
Independent == [][objs'[3 - last'.i] = objs[3 - last'.i]]_<<objs, k, last>>
TextIsList == Show(objs[1].path) = "" \/ Parse(Show(objs[1].path)) = objs[1].path
=============================================================================
