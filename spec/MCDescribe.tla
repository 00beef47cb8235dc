----------------------------- MODULE MCDescribe -----------------------------
(* Exhaustive check of Describe on small crystals, all actions, bounded depth. *)
EXTENDS Describe, TLC
CONSTANTS Depth
VARIABLE n

Cubic(k) == MScale(k, Id3)
Bases == {
  [cell |-> Cubic(2), at |-> << <<<<0, 0, 0>>, 1>>, <<<<1, 0, 0>>, 2>> >>],
  [cell |-> Cubic(2), at |-> << <<<<0, 0, 0>>, 1>>, <<<<1, 1, 0>>, 1>> >>],
  [cell |-> << <<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 2>> >>, at |-> << <<<<0, 0, 0>>, 1>>, <<<<0, 0, 1>>, 1>> >>],
  [cell |-> << <<2, 0, 0>>, <<-1, 3, 0>>, <<0, 1, 2>> >>, at |-> << <<<<0, 0, 0>>, 1>> >>]
}
MCInit == base \in Bases /\ desc = base /\ org = <<0, 0, 0>> /\ n = 0
MCNext ==
  /\ n < Depth
  /\ n' = n + 1
  /\ \/ \E i, j \in I3, s \in {-1, 1} : AddRow(i, j, s)
     \/ \E i, j \in I3 : i < j /\ SwapRows(i, j)
     \/ \E i \in I3 : NegRow(i)
     \/ \E i \in I3 : Abs(Det(desc.cell)) <= 4 * Abs(Det(base.cell)) /\ Double(i)
     \/ \E k \in {1, 2}, v \in {<<1, 0, 0>>, <<0, -1, 1>>} : MoveAtom(k, v)
     \/ SwapAtoms(1, 2)
     \/ \E v \in {<<1, 0, 0>>, <<0, 1, 1>>} : ShiftOrigin(v)
MCSpec == MCInit /\ [][MCNext]_<<dvars, n>>
=============================================================================
