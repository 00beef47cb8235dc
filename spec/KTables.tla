------------------------------ MODULE KTables ------------------------------
(* The tables of high-symmetry points of Setyawan & Curtarolo (tables 2-21)   *)
(* and Hinuma et al. (tables 69-92).  A coordinate is a linear form in the     *)
(* parameters of the table: a sequence of <<parameter, num, den>>, parameter   *)
(* "1" being the constant.  Coordinates are relative to the reciprocal vectors *)
(* of the primitive cell of the convention.                                    *)
EXTENDS Integers
Tab(t) ==
  CASE t = 2 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "R", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>] >>
    [] t = 3 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "K", c |-> <<<<<<"1", 3, 8>>>>, <<<<"1", 3, 8>>>>, <<<<"1", 3, 4>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "U", c |-> <<<<<<"1", 5, 8>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 5, 8>>>>>>],
      [n |-> "W", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 3, 4>>>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 4 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "H", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "P", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "N", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 5 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "A", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 6 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "M", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "N", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "P", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "Z1", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>>>] >>
    [] t = 7 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "N", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "P", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "SIGMA", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "SIGMA1", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Y", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Y1", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"zeta", -1, 1>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>>>] >>
    [] t = 8 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "R", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "S", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "U", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "Y", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 9 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "A", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>>>],
      [n |-> "A1", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "T", c |-> <<<<<<"1", 1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "X1", c |-> <<<<<<"1", 1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>] >>
    [] t = 10 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "C", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "C1", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "D", c |-> <<<<<<"1", 1, 2>>, <<"delta", -1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"delta", -1, 1>>>>>>],
      [n |-> "D1", c |-> <<<<<<"1", 1, 2>>, <<"delta", 1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H", c |-> <<<<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 2>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H1", c |-> <<<<<<"phi", 1, 1>>>>, <<<<"1", 1, 2>>, <<"phi", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>] >>
    [] t = 11 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "L", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", -1, 1>>>>>>],
      [n |-> "L1", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", 1, 1>>>>>>],
      [n |-> "L2", c |-> <<<<<<"1", 1, 2>>, <<"delta", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", 1, 1>>>>, <<<<"mu", -1, 1>>>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "S", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "W", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "X", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>>>],
      [n |-> "X1", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>>>],
      [n |-> "Y", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "Y1", c |-> <<<<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>>>] >>
    [] t = 12 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "A", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "A1", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "S", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<>>>>],
      [n |-> "X1", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 13 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "A", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H", c |-> <<<<<<"1", 1, 3>>>>, <<<<"1", 1, 3>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "K", c |-> <<<<<<"1", 1, 3>>>>, <<<<"1", 1, 3>>>>, <<>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>] >>
    [] t = 14 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "B", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "B1", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", -1, 1>>, <<"eta", 1, 1>>>>>>],
      [n |-> "F", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "L1", c |-> <<<<>>, <<>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "P", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"nu", 1, 1>>>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "P1", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "P2", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"eta", 1, 1>>>>>>],
      [n |-> "Q", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"nu", 1, 1>>>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"nu", 1, 1>>>>, <<>>, <<<<"nu", -1, 1>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 15 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "F", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "P", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>>>],
      [n |-> "P1", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"nu", 1, 1>>>>>>],
      [n |-> "Q", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "Q1", c |-> <<<<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", -1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 16 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "A", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "C", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "D", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "D1", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "E", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H", c |-> <<<<>>, <<<<"eta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>>>],
      [n |-> "H1", c |-> <<<<>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<>>, <<<<"eta", 1, 1>>>>, <<<<"nu", -1, 1>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<<<"eta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>>>],
      [n |-> "M1", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "M2", c |-> <<<<<<"1", 1, 2>>>>, <<<<"eta", 1, 1>>>>, <<<<"nu", -1, 1>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Y1", c |-> <<<<>>, <<>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>] >>
    [] t = 17 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "N", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "N1", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "F", c |-> <<<<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "F1", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "F2", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "F3", c |-> <<<<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "I", c |-> <<<<<<"phi", 1, 1>>>>, <<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "I1", c |-> <<<<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", -1, 1>>, <<"phi", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 1>>, <<"psi", -1, 1>>>>, <<<<"1", -1, 1>>, <<"psi", 1, 1>>>>, <<>>>>],
      [n |-> "X1", c |-> <<<<<<"psi", 1, 1>>>>, <<<<"1", 1, 1>>, <<"psi", -1, 1>>>>, <<>>>>],
      [n |-> "X2", c |-> <<<<<<"1", -1, 1>>, <<"psi", 1, 1>>>>, <<<<"psi", -1, 1>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Y1", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 18 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "F", c |-> <<<<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 1>>, <<"psi", -1, 1>>>>>>],
      [n |-> "F1", c |-> <<<<<<"phi", 1, 1>>>>, <<<<"1", -1, 1>>, <<"phi", 1, 1>>>>, <<<<"psi", 1, 1>>>>>>],
      [n |-> "F2", c |-> <<<<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"phi", -1, 1>>>>, <<<<"1", 1, 1>>, <<"psi", -1, 1>>>>>>],
      [n |-> "H", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "H1", c |-> <<<<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "I", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "N", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "N1", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "Y1", c |-> <<<<<<"1", 1, 1>>, <<"mu", -1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "Y2", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "Y3", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 19 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "F", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"nu", 1, 1>>>>, <<<<"omega", 1, 1>>>>>>],
      [n |-> "F1", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"omega", -1, 1>>>>>>],
      [n |-> "F2", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"nu", 1, 1>>>>, <<<<"omega", 1, 1>>>>>>],
      [n |-> "H", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "H1", c |-> <<<<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "I", c |-> <<<<<<"rho", 1, 1>>>>, <<<<"1", 1, 1>>, <<"rho", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "I1", c |-> <<<<<<"1", 1, 1>>, <<"rho", -1, 1>>>>, <<<<"1", -1, 1>>, <<"rho", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "N", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "N1", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "Y1", c |-> <<<<<<"1", 1, 1>>, <<"mu", -1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "Y2", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "Y3", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 20 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "M", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "N", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "Y", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 21 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "M", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "N", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "Z", c |-> <<<<<<"1", -1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 69 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "R", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "X1", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>] >>
    [] t = 70 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "W", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 3, 4>>>>>>],
      [n |-> "W2", c |-> <<<<<<"1", 3, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "K", c |-> <<<<<<"1", 3, 8>>>>, <<<<"1", 3, 8>>>>, <<<<"1", 3, 4>>>>>>],
      [n |-> "U", c |-> <<<<<<"1", 5, 8>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 5, 8>>>>>>] >>
    [] t = 71 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "H", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "P", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "N", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 72 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "A", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>] >>
    [] t = 73 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "M", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "P", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "Z", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "Z0", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "N", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>] >>
    [] t = 74 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "X", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "P", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "N", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "S0", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "S", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "R", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "G", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"zeta", -1, 1>>>>>>] >>
    [] t = 75 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "U", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Y", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "S", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 76 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "T", c |-> <<<<<<"1", 1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "SIGMA0", c |-> <<<<>>, <<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "U0", c |-> <<<<<<"1", 1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "A0", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>>>],
      [n |-> "C0", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 77 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "LAMBDA0", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>, <<>>>>],
      [n |-> "Q0", c |-> <<<<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 1>>>>>>],
      [n |-> "G0", c |-> <<<<<<"1", 1, 2>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H0", c |-> <<<<<<"1", 1, 2>>, <<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 78 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "A0", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "C0", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "B0", c |-> <<<<<<"1", 1, 2>>, <<"delta", 1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "D0", c |-> <<<<<<"1", 1, 2>>, <<"delta", -1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"delta", -1, 1>>>>>>],
      [n |-> "G0", c |-> <<<<<<"phi", 1, 1>>>>, <<<<"1", 1, 2>>, <<"phi", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H0", c |-> <<<<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 2>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 79 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "S", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "W", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "SIGMA0", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>>>],
      [n |-> "F2", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>>>],
      [n |-> "Y0", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "U0", c |-> <<<<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "L0", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", -1, 1>>>>>>],
      [n |-> "M0", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", 1, 1>>>>>>],
      [n |-> "J0", c |-> <<<<<<"1", 1, 2>>, <<"delta", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", 1, 1>>>>, <<<<"mu", -1, 1>>>>>>] >>
    [] t = 80 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "S", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "W", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "Y0", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>>>],
      [n |-> "U2", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>>>],
      [n |-> "LAMBDA0", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "G2", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "K", c |-> <<<<<<"1", 1, 2>>, <<"delta", -1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"mu", 1, 1>>>>>>],
      [n |-> "K2", c |-> <<<<<<"1", 1, 2>>, <<"delta", 1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"mu", -1, 1>>>>>>],
      [n |-> "K4", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", 1, 1>>>>>>] >>
    [] t = 81 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "S", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "W", c |-> <<<<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>, <<<<"1", 1, 4>>>>>>],
      [n |-> "SIGMA0", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "F0", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "LAMBDA0", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"zeta", -1, 1>>>>>>],
      [n |-> "G0", c |-> <<<<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>>>],
      [n |-> "V0", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", -1, 1>>>>, <<<<"mu", -1, 1>>>>>>],
      [n |-> "H0", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", 1, 1>>>>, <<<<"mu", 1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<<<"1", 1, 2>>, <<"delta", 1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"1", 1, 2>>, <<"delta", -1, 1>>>>>>] >>
    [] t = 82 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "S", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "SIGMA0", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<>>>>],
      [n |-> "C0", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<>>>>],
      [n |-> "A0", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "E0", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 83 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "T", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "T2", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Z2", c |-> <<<<>>, <<>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "S", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "R", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "DELTA0", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<>>>>],
      [n |-> "F0", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<>>>>],
      [n |-> "B0", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "B2", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "G0", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "G2", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", -1, 2>>>>>>] >>
    [] t = 84 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "A", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "K", c |-> <<<<<<"1", 1, 3>>>>, <<<<"1", 1, 3>>>>, <<>>>>],
      [n |-> "H", c |-> <<<<<<"1", 1, 3>>>>, <<<<"1", 1, 3>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H2", c |-> <<<<<<"1", 1, 3>>>>, <<<<"1", 1, 3>>>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 85 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "T", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "L2", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "L4", c |-> <<<<>>, <<>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "F", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "F2", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "S0", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"nu", -1, 1>>>>, <<>>>>],
      [n |-> "S2", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "S4", c |-> <<<<<<"nu", 1, 1>>>>, <<>>, <<<<"nu", -1, 1>>>>>>],
      [n |-> "S6", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"nu", 1, 1>>>>, <<>>>>],
      [n |-> "H0", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 1>>, <<"eta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H4", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "H6", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", -1, 1>>, <<"eta", 1, 1>>>>>>],
      [n |-> "M0", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"eta", 1, 1>>>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "M2", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>>>],
      [n |-> "M4", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"nu", 1, 1>>>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "M6", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "M8", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"eta", 1, 1>>>>>>] >>
    [] t = 86 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "T", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "P0", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"1", -1, 1>>, <<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "P2", c |-> <<<<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "R0", c |-> <<<<<<"1", 1, 1>>, <<"eta", -1, 1>>>>, <<<<"eta", -1, 1>>>>, <<<<"eta", -1, 1>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>>>],
      [n |-> "M2", c |-> <<<<<<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"nu", 1, 1>>>>, <<<<"1", -1, 1>>, <<"nu", 1, 1>>>>>>],
      [n |-> "L", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "F", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>] >>
    [] t = 87 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "B", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "B2", c |-> <<<<>>, <<>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "Y2", c |-> <<<<<<"1", -1, 2>>>>, <<>>, <<>>>>],
      [n |-> "C", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "C2", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "D", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "D2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>>>],
      [n |-> "A", c |-> <<<<<<"1", -1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "E", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "H", c |-> <<<<<<"eta", -1, 1>>>>, <<>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<<<"1", -1, 1>>, <<"eta", 1, 1>>>>, <<>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "H4", c |-> <<<<<<"eta", -1, 1>>>>, <<>>, <<<<"nu", -1, 1>>>>>>],
      [n |-> "M", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>>>],
      [n |-> "M2", c |-> <<<<<<"1", -1, 1>>, <<"eta", 1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"nu", 1, 1>>>>>>],
      [n |-> "M4", c |-> <<<<<<"eta", -1, 1>>>>, <<<<"1", 1, 2>>>>, <<<<"nu", -1, 1>>>>>>] >>
    [] t = 88 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Y2", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Y4", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "A", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M2", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "V", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "V2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "L2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "C", c |-> <<<<<<"1", 1, 1>>, <<"psi", -1, 1>>>>, <<<<"1", 1, 1>>, <<"psi", -1, 1>>>>, <<>>>>],
      [n |-> "C2", c |-> <<<<<<"1", -1, 1>>, <<"psi", 1, 1>>>>, <<<<"psi", 1, 1>>>>, <<>>>>],
      [n |-> "C4", c |-> <<<<<<"psi", 1, 1>>>>, <<<<"1", -1, 1>>, <<"psi", 1, 1>>>>, <<>>>>],
      [n |-> "D", c |-> <<<<<<"1", -1, 1>>, <<"phi", 1, 1>>>>, <<<<"phi", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "D2", c |-> <<<<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "E", c |-> <<<<<<"1", -1, 1>>, <<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "E2", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "E4", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>] >>
    [] t = 89 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "A", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "V2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "L2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "F", c |-> <<<<<<"1", -1, 1>>, <<"phi", 1, 1>>>>, <<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 1>>, <<"psi", -1, 1>>>>>>],
      [n |-> "F2", c |-> <<<<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"phi", 1, 1>>>>, <<<<"psi", 1, 1>>>>>>],
      [n |-> "F4", c |-> <<<<<<"phi", 1, 1>>>>, <<<<"1", 1, 1>>, <<"phi", -1, 1>>>>, <<<<"1", 1, 1>>, <<"psi", -1, 1>>>>>>],
      [n |-> "H", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "H4", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "G", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "G2", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"1", 1, 1>>, <<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "G4", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "G6", c |-> <<<<<<"1", 1, 1>>, <<"mu", -1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>] >>
    [] t = 90 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Y", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "A", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "M2", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "V", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "V2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "L2", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "I", c |-> <<<<<<"1", -1, 1>>, <<"rho", 1, 1>>>>, <<<<"rho", 1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "I2", c |-> <<<<<<"1", 1, 1>>, <<"rho", -1, 1>>>>, <<<<"1", 1, 1>>, <<"rho", -1, 1>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "K", c |-> <<<<<<"nu", -1, 1>>>>, <<<<"nu", 1, 1>>>>, <<<<"omega", 1, 1>>>>>>],
      [n |-> "K2", c |-> <<<<<<"1", -1, 1>>, <<"nu", 1, 1>>>>, <<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"1", 1, 1>>, <<"omega", -1, 1>>>>>>],
      [n |-> "K4", c |-> <<<<<<"1", 1, 1>>, <<"nu", -1, 1>>>>, <<<<"nu", 1, 1>>>>, <<<<"omega", 1, 1>>>>>>],
      [n |-> "H", c |-> <<<<<<"zeta", -1, 1>>>>, <<<<"zeta", 1, 1>>>>, <<<<"eta", 1, 1>>>>>>],
      [n |-> "H2", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"1", 1, 1>>, <<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "H4", c |-> <<<<<<"zeta", 1, 1>>>>, <<<<"zeta", -1, 1>>>>, <<<<"1", 1, 1>>, <<"eta", -1, 1>>>>>>],
      [n |-> "N", c |-> <<<<<<"mu", -1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>],
      [n |-> "N2", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"1", 1, 1>>, <<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "N4", c |-> <<<<<<"mu", 1, 1>>>>, <<<<"mu", -1, 1>>>>, <<<<"delta", -1, 1>>>>>>],
      [n |-> "N6", c |-> <<<<<<"1", 1, 1>>, <<"mu", -1, 1>>>>, <<<<"mu", 1, 1>>>>, <<<<"delta", 1, 1>>>>>>] >>
    [] t = 91 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Y", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "V", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "U", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "T", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
    [] t = 92 -> <<
      [n |-> "GAMMA", c |-> <<<<>>, <<>>, <<>>>>],
      [n |-> "Z", c |-> <<<<>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "Y", c |-> <<<<>>, <<<<"1", 1, 2>>>>, <<>>>>],
      [n |-> "Y2", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "X", c |-> <<<<<<"1", 1, 2>>>>, <<>>, <<>>>>],
      [n |-> "V2", c |-> <<<<<<"1", 1, 2>>>>, <<<<"1", -1, 2>>>>, <<>>>>],
      [n |-> "U2", c |-> <<<<<<"1", -1, 2>>>>, <<>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "T2", c |-> <<<<>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>],
      [n |-> "R2", c |-> <<<<<<"1", -1, 2>>>>, <<<<"1", -1, 2>>>>, <<<<"1", 1, 2>>>>>>] >>
==============================================================================
