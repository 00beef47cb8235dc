------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* A crystal and its descriptions.                                         *)
(*                                                                         *)
(* The same crystal can be handed to wulfric as infinitely many pairs      *)
(* (cell, atoms).  The state is one such pair, on an integer grid; the     *)
(* actions are the elementary ways to re-describe the crystal.  What never *)
(* changes is the periodic set of typed points (Denotation): that is the   *)
(* design invariant checked exhaustively by TLC (MCDescribe), and the      *)
(* behaviours of this machine are the inputs replayed into wulfric         *)
(* (GenDescribe).                                                          *)
(***************************************************************************)
EXTENDS Lat

VARIABLES base,   \* the description the behaviour started from
          desc,   \* the current description
          org     \* origin shift accumulated so far (grid vector)

dvars == <<base, desc, org>>

\* replace basis vector i by b_i + s*b_j: a unimodular change of basis
AddRow(i, j, s) ==
  /\ i # j
  /\ desc' = [desc EXCEPT !.cell[i] = VAdd(@, VScale(s, desc.cell[j]))]
  /\ UNCHANGED <<base, org>>
SwapRows(i, j) ==
  /\ i # j
  /\ desc' = [desc EXCEPT !.cell[i] = desc.cell[j], !.cell[j] = desc.cell[i]]
  /\ UNCHANGED <<base, org>>
\* left-handed cells are legal descriptions too
NegRow(i) ==
  /\ desc' = [desc EXCEPT !.cell[i] = VNeg(@)]
  /\ UNCHANGED <<base, org>>
\* a supercell: twice as many atoms
Double(i) ==
  /\ desc' = [cell |-> [desc.cell EXCEPT ![i] = VScale(2, @)],
              at |-> desc.at \o [k \in 1..Len(desc.at) |->
                        <<VAdd(desc.at[k][1], desc.cell[i]), desc.at[k][2]>>]]
  /\ UNCHANGED <<base, org>>
\* an atom may be written in any periodic image
MoveAtom(k, n) ==
  /\ k \in 1..Len(desc.at)
  /\ desc' = [desc EXCEPT !.at[k] = <<VAdd(@[1], VM(n, desc.cell)), @[2]>>]
  /\ UNCHANGED <<base, org>>
SwapAtoms(k, m) ==
  /\ {k, m} \subseteq 1..Len(desc.at)
  /\ desc' = [desc EXCEPT !.at[k] = desc.at[m], !.at[m] = desc.at[k]]
  /\ UNCHANGED <<base, org>>
\* the origin is a choice
ShiftOrigin(v) ==
  /\ desc' = [desc EXCEPT !.at = [k \in 1..Len(desc.at) |->
                                     <<VAdd(desc.at[k][1], v), desc.at[k][2]>>]]
  /\ org' = VAdd(org, v)
  /\ UNCHANGED base

(* ------------------------------ invariants ------------------------------ *)
Denotation ==
  /\ Distinct(desc)
  /\ SameDensity(base, desc)
  /\ TranslationsOK(base, desc)
  /\ DescribesShifted(base, desc, VNeg(org))
\* an exact count of lattice points scales with the cell only
PointsScale ==
  LatticePoints(desc) * Abs(Det(base.cell)) = LatticePoints(base) * Abs(Det(desc.cell))
\* equality of crystals is symmetric (used to validate SameCrystal itself)
Symmetric == SameCrystal(base, desc) /\ SameCrystal(desc, base)
=============================================================================
