----------------------------- MODULE GenKpoints ----------------------------
(* Random behaviours of the machine (TLC -simulate); every behaviour is a    *)
(* history of operations to be replayed into wulfric.Kpoints.                *)
EXTENDS KpointsSM, Json
CONSTANT Depth
VARIABLES objs, hist, ended
\* some names are parts of others
Names == {"A", "A1", "GAMMA", "K2", "a", "K1"}
Labels == {"", "lab", "$\\Gamma$", "A"}
Pick(S) == {RandomElement(S)}
RandSeq(S, lo, hi) == LET m == RandomElement(lo..hi) IN [j \in 1..m |-> RandomElement(S)]
\* names that make the path acceptable, most of the time
Pool(o) == IF o.names = <<>> \/ RandomElement(1..6) = 1 THEN Names ELSE RangeOf(o.names)
RandPath(o) ==
  LET S == Pool(o)
      short == RandomElement(1..7) = 1
  IN  [j \in 1..RandomElement(1..3) |-> RandSeq(S, IF short THEN 1 ELSE 2, 4)]
Op(i) ==
  LET o == objs[i]
      S == Pool(o)
  IN
  CASE RandomElement(1..10) \in {1, 2, 3} ->
         [op |-> "add", i |-> i, name |-> RandomElement(Names), c |-> RandomElement(1..5),
          la |-> RandomElement(Labels), rel |-> RandomElement(BOOLEAN), form |-> RandomElement({"list", "array", "tuple"})]
    [] OTHER ->
       LET kind == RandomElement({"remove", "text", "text2", "list", "list2", "n", "badn", "copy", "new", "mutate", "read", "empty", "poke", "cell"})
       IN  CASE kind = "remove" -> [op |-> "remove", i |-> i, name |-> RandomElement(S)]
             [] kind \in {"text", "text2"} -> [op |-> "text", i |-> i, text |-> Show(RandPath(o))]
             [] kind \in {"list", "list2"} -> [op |-> "list", i |-> i, path |-> RandPath(o),
                                    form |-> RandomElement({"list", "tuple", "mixed", "array"})]
             [] kind = "empty" -> [op |-> "list", i |-> i, path |-> <<>>, form |-> "list"]
             [] kind = "n" -> [op |-> "n", i |-> i, n |-> RandomElement(0..9)]
             [] kind = "badn" -> [op |-> "badn", i |-> i, v |-> RandomElement({"2.5", "str", "None", "2.0"})]
             [] kind = "copy" -> [op |-> "copy", i |-> i]
             [] kind = "mutate" -> [op |-> "mutate", i |-> i]
             [] kind = "read" -> [op |-> "read", i |-> i]
             [] kind = "poke" -> [op |-> "poke", i |-> i, name |-> RandomElement(S), c |-> RandomElement(1..5), la |-> RandomElement(Labels \ {""})]
             [] kind = "cell" -> [op |-> "cell", i |-> i, c |-> RandomElement(1..3)]
             [] kind = "new" ->
                  LET m == RandomElement(0..4)
                      nn == IF RandomElement(1..6) = 1 THEN m + 1 ELSE m
                      nl == IF RandomElement(1..8) = 1 THEN m + 1 ELSE m
                      all == <<"A", "A1", "GAMMA", "K2", "a", "K1">>
                      s == RandomElement(0..5)
                      \* one time in eight the last name repeats the first
                      dup == RandomElement(1..8)
                      names == [j \in 1..nn |-> all[((((IF dup = 1 /\ j = nn THEN 1 ELSE j) + s) % 6) + 1)]]
                      hasn == RandomElement(BOOLEAN)
                  IN  [op |-> "new", i |-> i, co |-> RandSeq(1..5, m, m), hasn |-> hasn, names |-> names,
                       hasl |-> RandomElement(1..3) = 1, la |-> RandSeq({"lab", "A", "q"}, nl, nl),
                       hasp |-> RandomElement(BOOLEAN),
                       path |-> IF names = <<>> THEN <<>> ELSE
                                  [j \in 1..RandomElement(1..2) |->
                                     RandSeq(IF hasn THEN RangeOf(names) ELSE {"K1", "K2"}, 2, 3)],
                       form |-> RandomElement({"list", "text", "tuple"}), cell |-> RandomElement(1..3), given |-> RandomElement({"list", "tuple", "array", "rows"}),
                       n |-> RandomElement({0, 1, 3, 100})]
GInit == objs = <<Nothing, Nothing>> /\ hist = <<>> /\ ended = FALSE
GNext ==
  /\ ~ended /\ Len(hist) < Depth
  /\ \E i \in Pick(1..2) : \E op \in {TLCEval(Op(i))} : \E dice \in Pick(1..6) :
       LET bad == RemovesUsed(objs, op)
           keep == bad /\ dice # 1
           real == IF keep THEN [op |-> "read", i |-> i] ELSE op
       IN  /\ hist' = Append(hist, real)
           /\ objs' = Step(objs, real).objs
           /\ ended' = (bad /\ ~keep)
GSpec == GInit /\ [][GNext]_<<objs, hist, ended>>
Emit == (ended \/ Len(hist) = Depth) => PrintT("GEN " \o ToJson([hist |-> hist, ended |-> ended]))
\* the machine stays consistent along all of them
Good == ended \/ (Consistent(objs[1]) /\ Consistent(objs[2]))
=============================================================================
