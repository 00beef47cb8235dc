------------------------------ MODULE MCPoscar ------------------------------
(* A crystal is written and read again, in every mode and with every number   *)
(* of decimals.  Design facts: what is written has the layout of the format,  *)
(* reading it gives the crystal to the precision written, a crystal on the    *)
(* written grid comes back exactly, and then a second copy is the same file.  *)
EXTENDS Poscar
CONSTANTS Vals, MaxAtoms, MaxDec
Cells == {<<<<35, 0, 0>>, <<0, 40, 5>>, <<0, 0, 27>>>>, <<<<0, 12, 13>>, <<-11, 0, 12>>, <<14, 11, 0>>>>}
Kinds == {"Fe", "O"}
VARIABLES x, file, how, gen
vars == <<x, file, how, gen>>
Pts == {<<a, b, c>> : a \in Vals, b \in Vals, c \in {0, 75}}
Init == /\ x \in {[cell |-> c, du |-> 1, dp |-> 2, at |-> <<>>] : c \in Cells}
        /\ file = <<>> /\ how = <<>> /\ gen = 0
AddAtom == /\ file = <<>> /\ gen = 0 /\ Len(x.at) < MaxAtoms
           /\ \E s \in Kinds : \E p \in Pts : x' = [x EXCEPT !.at = Append(@, <<s, p>>)]
           /\ UNCHANGED <<file, how, gen>>
DoWrite == /\ file = <<>> /\ x.at # <<>> /\ gen <= 1
           /\ \E m \in {"Direct", "Cartesian"} : \E e \in 0..MaxDec :
                 file' = Write(x, m, e, <<"any", "text">>) /\ how' = <<m, e>>
           /\ UNCHANGED <<x, gen>>
DoRead == /\ file # <<>> /\ how[1] = "Direct"
          /\ x' = ReadDirect(file, how[2]) /\ gen' = gen + 1
          /\ file' = <<>> /\ how' = <<>>
Next == AddAtom \/ DoWrite \/ DoRead
Spec == Init /\ [][Next]_vars
Written == file # <<>> =>
  /\ WellFormed(file) /\ Layout(file, how[1]) /\ AllDecimals(file, how[2])
  /\ Total(file) = Len(x.at)
Back == file # <<>> =>
  LET m == how[1]
      e == how[2]
      ex == IF m = "Direct" THEN x.dp ELSE x.dp + x.du
      tgt == [k \in 1..Len(x.at) |-> <<x.at[k][1], IF m = "Direct" THEN x.at[k][2] ELSE VM(x.at[k][2], x.cell)>>]
      f == IF e >= ex THEN e ELSE ex
      got == [k \in 1..Total(file) |-> <<Name(file, k), VScale(Pow10(f - e), Coord(file, k, e))>>]
      want == [k \in 1..Len(tgt) |-> <<tgt[k][1], VScale(Pow10(f - ex), tgt[k][2])>>]
  IN  IF e >= ex THEN SameBag(got, want) ELSE NearBag(got, want, Pow10(f - e) \div 2)
CellBack == (file # <<>> /\ how[2] >= x.du) =>
  Matrix(file, how[2]) = MScale(Pow10(how[2] - x.du), x.cell)
\* written again from what was read: the same file
Again == (file # <<>> /\ how[1] = "Direct") =>
  Write(ReadDirect(file, how[2]), "Direct", how[2], <<"any", "text">>) = file
=============================================================================
