----------------------------- MODULE MCSampling -----------------------------
(* Paths over three points: one tick per label, and a label is joined exactly *)
(* at the breaks; lengths are decided exactly.                                *)
EXTENDS Sampling, TLC
VARIABLES p, d
Pts == {"A", "B", "C"}
Lab == [x \in Pts |-> x]
Subs == UNION {[1..m -> Pts] : m \in 2..3}
Init == p \in {<<>>} \cup {<<s>> : s \in Subs} \cup {<<s, t>> : s, t \in Subs}
        /\ d \in {<<0, 0, 0>>, <<3, 4, 0>>, <<-12, 0, 5>>, <<1, 2, 2>>}
Next == UNCHANGED <<p, d>>
Spec == Init /\ [][Next]_<<p, d>>
TicksPerLabel == Len(LabelsOf(p, Lab)) = NTicks(p)
JoinedAtBreaks ==
  Len(p) = 2 => LET q == LabelsOf(p, Lab) IN q[Len(p[1])] = p[1][Len(p[1])] \o "|" \o p[2][1]
EveryPointLabelled == p # <<>> => LabelsOf(p, Lab)[Len(LabelsOf(p, Lab))] = p[Len(p)][Len(p[Len(p)])]
Eye == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Norm == CASE d = <<0, 0, 0>> -> 0 [] d = <<3, 4, 0>> -> 5 [] d = <<-12, 0, 5>> -> 13 [] OTHER -> 3
Lengths == \A x \in 0..14 : LengthIs(x, d, Eye, 1, 1, 0) <=> x = Norm
=============================================================================
