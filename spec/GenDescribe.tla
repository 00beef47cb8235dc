---------------------------- MODULE GenDescribe ----------------------------
(* Executes Describe along seeded scripts and emits the description reached *)
(* at the end of each script.  Input: one line {"cell", "at", "script"} per *)
(* behaviour; the script only chooses among the enabled actions.            *)
EXTENDS Describe, TLC, Json, IOUtils
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES k, pc
NAt(m) == ((m - 1) % Len(desc.at)) + 1
GenInit ==
  /\ k \in 1..Len(Scripts)
  /\ base = [cell |-> Scripts[k].cell, at |-> Scripts[k].at]
  /\ desc = base
  /\ org = <<0, 0, 0>>
  /\ pc = 1
Act(s) ==
  CASE s.a = "AddRow" -> AddRow(s.i, s.j, s.s)
    [] s.a = "SwapRows" -> SwapRows(s.i, s.j)
    [] s.a = "NegRow" -> NegRow(s.i)
    [] s.a = "Double" -> Double(s.i)
    [] s.a = "MoveAtom" -> MoveAtom(NAt(s.i), s.v)
    [] s.a = "SwapAtoms" -> SwapAtoms(NAt(s.i), NAt(s.j))
    [] s.a = "ShiftOrigin" -> ShiftOrigin(s.v)
GenNext ==
  /\ pc <= Len(Scripts[k].script)
  /\ Act(Scripts[k].script[pc])
  /\ pc' = pc + 1
  /\ k' = k
GenSpec == GenInit /\ [][GenNext]_<<dvars, k, pc>>
Emit ==
  pc = Len(Scripts[k].script) + 1
    => PrintT("GEN " \o ToJson([k |-> k, cell |-> desc.cell, at |-> desc.at, org |-> org]))
=============================================================================
