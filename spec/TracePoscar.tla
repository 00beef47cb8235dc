---------------------------- MODULE TracePoscar ----------------------------
(* C20, C21.  kind "chain": one crystal written and read again and again;     *)
(* kind "file": one file that somebody wrote, and what was read from it.      *)
EXTENDS TraceLib, Poscar, Species
Pairs(names, pos) == [k \in 1..Len(pos) |-> <<names[k], pos[k]>>]

(* ------------------------------- C20 ------------------------------------ *)
SpeciesAt(r, k) == IF r.species # <<>> THEN r.species[k]
                   ELSE CHOOSE s \in SpeciesOf(r.chars[k]) : TRUE
\* coordinates as they are to be written, in units 10^-e
Target(r, mode, e) ==
  [k \in 1..Len(r.pos) |->
     <<SpeciesAt(r, k),
       IF mode = "Direct" THEN VScale(Pow10(e - r.dp), r.pos[k])
       ELSE VScale(Pow10(e - (r.dp + r.du)), VM(r.pos[k], r.cell))>>]
StepClauses(r, s) ==
  LET L == s.lines
      e == IF s.mode = "Direct" THEN r.dp ELSE r.dp + r.du
      written == [k \in 1..Total(L) |-> <<Name(L, k), Coord(L, k, e)>>]
      rounded == [k \in 1..Total(L) |-> <<Name(L, k), VScale(Pow10(e - s.dec), Coord(L, k, s.dec))>>]
      wcell == [i \in I3 |-> [j \in I3 |-> DecVal(L[2 + i][j], r.du)]]
      wround == [i \in I3 |-> [j \in I3 |-> Pow10(r.du - s.dec) * DecVal(L[2 + i][j], s.dec)]]
      target == Target(r, s.mode, e)
  IN  IF s.wexc # "" THEN {"Written:" \o s.wexc}
      ELSE IF ~Layout(L, s.mode) THEN {"LayoutOfTheFormat"}
      ELSE
        Fails("NumberOfDecimals", AllDecimals(L, s.dec))
        \cup (IF s.dec >= e
              THEN Fails("WritesTheAtoms", (\A k \in 1..Total(L) : \A j \in I3 : Fits(CoordLine(L, k)[j], e)) /\ SameBag(written, target))
              ELSE Fails("WritesTheAtoms", NearBag(rounded, target, (Pow10(e - s.dec) \div 2) + 1)))
        \cup (IF s.dec >= r.du
              THEN Fails("WritesTheCell", (\A i \in 3..5 : \A j \in I3 : Fits(L[i][j], r.du)) /\ wcell = r.cell)
              ELSE Fails("WritesTheCell", \A i, j \in I3 : 2 * Abs(wround[i][j] - r.cell[i][j]) <= Pow10(r.du - s.dec) + 1))
        \cup Fails("WritesTheComment", s.dflt \/ SameComment(r.comment, s.first))
        \cup Fails("Read:" \o s.rexc, s.rexc = "")
        \cup (IF s.rexc # "" THEN {} ELSE
           Fails("ReadsTheCell", s.ok /\ s.rcell = Matrix(L, s.ru))
           \cup Fails("ReadsTheAtoms", s.ok /\ Len(s.rpos) = Total(L) /\ Len(s.rnames) = Total(L)
                      /\ Pairs(s.rnames, s.rpos) = [k \in 1..Total(L) |-> <<Name(L, k), Coord(L, k, s.ru)>>])
           \cup Fails("ReadsTheCrystal", (s.dec >= e /\ s.dec >= r.du) =>
                      s.gridok /\ SameBag(Pairs(s.rnames, s.rgrid), [k \in 1..Len(r.pos) |-> <<SpeciesAt(r, k), r.pos[k]>>]))
           \cup Fails("ReadsTheComment", Strip(s.rcomment) = Strip(s.first))
           \cup Fails("ReadIsValid", s.valid))
        \cup Fails("InputsUnchanged", s.kept)
ChainClauses(r) ==
  UNION {StepClauses(r, r.steps[k]) : k \in 1..Len(r.steps)}

(* ------------------------------- C21 ------------------------------------ *)
FileClauses(r) ==
  LET L == r.lines
      N == Total(L)
      neg == Len(L[2]) = 1 /\ Ch(L[2][1], 1) = "-"
  IN  IF ~WellFormed(L) \/ (neg /\ ~VolumeFactor(L, r.su, r.tn, r.td)) THEN {"CaseIsWellFormed"}
      ELSE Fails("Read:" \o r.exc, r.exc = "")
       \cup (IF r.exc # "" THEN {} ELSE
         Fails("Scale", r.cellok /\ IsScaled(L, r.u, r.su, r.cell, r.tn, r.td))
         \cup Fails("NumberOfAtoms", Len(r.pos) = N /\ Len(r.names) = N)
         \cup (IF Len(r.pos) # N \/ Len(r.names) # N THEN {} ELSE
           Fails("Names", IF HasSpecies(L) THEN \A k \in 1..N : r.names[k] = Name(L, k)
                          ELSE \A j, k \in 1..N : (r.names[j] = r.names[k]) = (Group(L, j) = Group(L, k)))
           \* r.pos are the relative positions times r.q, an exact multiple of them
           \cup Fails("Positions", r.posok /\ \A k \in 1..N :
                 IF Cartesian(L) THEN VM(r.pos[k], Matrix(L, r.u)) = VScale(r.q, Coord(L, k, r.u))
                 ELSE VScale(Pow10(r.u), r.pos[k]) = VScale(r.q, Coord(L, k, r.u))))
         \cup Fails("Comment", Strip(r.comment) = Strip(r.first))
         \cup Fails("ReadIsValid", r.valid))
\* names without a species and unknown modes
RefuseClauses(r) == Fails("Refused:" \o r.exc, r.exc = "ValueError")
Clauses(r) == CASE r.kind = "chain" -> ChainClauses(r) [] r.kind = "file" -> FileClauses(r) [] r.kind = "refuse" -> RefuseClauses(r)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
