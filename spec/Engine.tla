------------------------------- MODULE Engine -------------------------------
(* The plotting engine (C25).                                                 *)
(*                                                                            *)
(* Above: what a call asks to be drawn, as sets of segments, marks, arrows    *)
(* and texts in one subplot.  Below: the machine, which draws pieces one by   *)
(* one (traces), passes the legend entry to one of them, and keeps a range of *)
(* every subplot.                                                             *)
(*                                                                            *)
(* Coordinates are integers: U units per unit of length.  Points and shifts   *)
(* are given in quarters, cells in units of length.                           *)
EXTENDS Voronoi, TLC
Add3(a, b, c) == VAdd(a, VAdd(b, c))
\* ------------------------------------------------------------ what is asked
Unit(op) == IF op.op \in {"ws", "bz"} THEN 20 * Det(Gram(op.B, Id3)) ELSE 20
Quarter(op) == Unit(op) \div 4
At(op, p) == VScale(Quarter(op), p)
Shift(op) == At(op, op.shift)
\* absolute coordinates of relative ones, which are in quarters
Abs3(op, p, M) == VAdd(Shift(op), VScale(Quarter(op), VM(p, M)))
Seg(a, b) == {a, b}
Nothing == [segs |-> {}, marks |-> <<>>, arrows |-> {}, texts |-> {}]
Both(x, y) == [segs |-> x.segs \cup y.segs, marks |-> x.marks \o y.marks,
               arrows |-> x.arrows \cup y.arrows, texts |-> x.texts \cup y.texts]
LineDrawn(a, b) == [Nothing EXCEPT !.segs = {Seg(a, b)}]
\* the name of a vector is written at 1.2 of it
VectorDrawn(a, b, name) ==
  [Nothing EXCEPT !.segs = {Seg(a, b)}, !.arrows = {<<b, VSub(b, a)>>},
                  !.texts = IF name = "" THEN {} ELSE {<<VAdd(b, MDiv(<<VSub(b, a), VSub(b, a), VSub(b, a)>>, 5)[1]), name>>}]
Digit3 == <<"1", "2", "3">>
VectorsDrawn(op, M, name) ==
  IF ~op.vectors THEN Nothing
  ELSE LET V == [i \in 1..3 |-> VectorDrawn(Shift(op), VAdd(Shift(op), VScale(Unit(op), M[i])), name \o Digit3[i])]
       IN  Both(V[1], Both(V[2], V[3]))
\* corners of a cell are sums of some of its vectors; edges join corners that
\* differ by one of them
Corners == {0, 1} \X {0, 1} \X {0, 1}
CellEdges(op, M) ==
  LET C(c) == VAdd(Shift(op), VScale(Unit(op), VM(c, M)))
  IN  {Seg(C(c[1]), C(c[2])) : c \in {x \in Corners \X Corners : \E i \in 1..3 : x[1][i] = 0 /\ x[2] = [x[1] EXCEPT ![i] = 1]}}
VName(op) == IF op.vlabel # "" THEN op.vlabel ELSE IF op.op = "bz" THEN "b" ELSE "a"
\* op.B: an obtuse superbase of the lattice; op.T: the cell in it
Obtuse(B) ==
  LET b0 == VNeg(Add3(B[1], B[2], B[3]))
  IN  \A x \in {<<B[1], B[2]>>, <<B[1], B[3]>>, <<B[2], B[3]>>, <<b0, B[1]>>, <<b0, B[2]>>, <<b0, B[3]>>} : Dot(x[1], x[2]) <= 0
ZoneEdges(op) ==
  LET G == Gram(op.B, Id3)
      V == Vertices(G)
      \* vertices are in the basis, times 2 Det(G)
      P(v) == VAdd(Shift(op), VScale(10, VM(v, op.B)))
  IN  {{P(v) : v \in e} : e \in Edges(V, G)}
PathEdges(op) ==
  LET P(i) == Abs3(op, op.pts[i], op.B)
      \* a step from a point to itself shows nothing
  IN  {Seg(P(op.path[x[1]][x[2]]), P(op.path[x[1]][x[2] + 1])) : x \in {y \in (1..Len(op.path)) \X (1..20) : y[2] < Len(op.path[y[1]]) /\ P(op.path[y[1]][y[2]]) # P(op.path[y[1]][y[2] + 1])}}
OnPath(op) == UNION {{op.path[s][k] : k \in 1..Len(op.path[s])} : s \in 1..Len(op.path)}
KChosen(op) == SelectSeq([i \in 1..Len(op.pts) |-> i], LAMBDA i : ~op.only \/ i \in OnPath(op))
LatticeMarks(op) ==
  LET R == op.range
      S == {<<i, j, k>> : i \in -R[1]..R[1], j \in -R[2]..R[2], k \in -R[3]..R[3]}
      q == SetToSeq(S)
  IN  [i \in 1..Len(q) |-> VAdd(Shift(op), VScale(Unit(op), VM(q[i], op.B)))]
DefaultColor(op) == IF op.op = "bz" THEN "#FF4D67" ELSE "#000000"
\* color of the i-th mark; op.table: colors of the species of the atoms
ColorOf(op, i) ==
  CASE op.op = "atoms" /\ Len(op.colors) = 0 -> op.table[i]
    [] Len(op.colors) = 0 -> DefaultColor(op)
    [] op.op \in {"atoms", "points"} /\ op.many -> op.colors[((i - 1) % Len(op.colors)) + 1]
    [] OTHER -> op.colors[1]
Marks(op, P) == [i \in 1..Len(P) |-> <<P[i], ColorOf(op, i)>>]
\* indices of atoms: given names, or X1 X2 ...
AtomTexts(op) == IF Len(op.names) > 0 THEN op.names ELSE [i \in 1..Len(op.pts) |-> "X" \o ToString(i)]
Drawn(op) ==
  CASE op.op = "points" -> [Nothing EXCEPT !.marks = Marks(op, [i \in 1..Len(op.pts) |-> At(op, op.pts[i])])]
    [] op.op = "line" -> LineDrawn(At(op, op.a), At(op, op.b))
    [] op.op = "vector" -> VectorDrawn(At(op, op.a), At(op, op.b), op.vlabel)
    [] op.op = "cell" -> Both([Nothing EXCEPT !.segs = CellEdges(op, op.B)], VectorsDrawn(op, op.B, VName(op)))
    [] op.op \in {"ws", "bz"} -> Both([Nothing EXCEPT !.segs = ZoneEdges(op)], VectorsDrawn(op, MM(op.T, op.B), VName(op)))
    [] op.op = "kpath" -> [Nothing EXCEPT !.segs = PathEdges(op)]
    [] op.op = "kpoints" ->
         LET c == KChosen(op)
             P == [i \in 1..Len(c) |-> Abs3(op, op.pts[c[i]], op.B)]
         IN  [Nothing EXCEPT !.marks = Marks(op, P), !.texts = {<<P[i], op.names[c[i]]>> : i \in 1..Len(c)}]
    [] op.op = "lattice" -> [Nothing EXCEPT !.marks = Marks(op, LatticeMarks(op))]
    [] op.op = "atoms" ->
         LET P == [i \in 1..Len(op.pts) |-> Abs3(op, op.pts[i], op.B)]
         IN  [Nothing EXCEPT !.marks = Marks(op, P), !.texts = {<<P[i], AtomTexts(op)[i]>> : i \in 1..Len(P)}]
\* everything that a range has to include
Extent(d) == UNION d.segs \cup {d.marks[i][1] : i \in 1..Len(d.marks)} \cup {a[1] : a \in d.arrows} \cup {t[1] : t \in d.texts}
Plots == {"points", "line", "vector", "cell", "ws", "bz", "kpath", "kpoints", "lattice", "atoms"}
InGrid(g, op) == op.r \in 1..g[1] /\ op.c \in 1..g[2]
\* ------------------------------------------------------- the machine (code)
\* Trace: [scene, draws, legend, group]; state: [traces, box]
Empty == [traces |-> <<>>, box |-> <<>>]
MinC(S, i) == Min({p[i] : p \in S})
MaxC(S, i) == Max({p[i] : p \in S})
BoxOf(S) == <<<<MinC(S, 1), MaxC(S, 1)>>, <<MinC(S, 2), MaxC(S, 2)>>, <<MinC(S, 3), MaxC(S, 3)>>>>
Wider(x, y) == [i \in 1..3 |-> <<IF x[i][1] <= y[i][1] THEN x[i][1] ELSE y[i][1], IF x[i][2] >= y[i][2] THEN x[i][2] ELSE y[i][2]>>]
\* one trace is added, the range of its subplot follows
Put(s, op, d, legend) ==
  LET sc == <<op.r, op.c>>
      b == BoxOf(Extent(d))
      known == {i \in 1..Len(s.box) : s.box[i][1] = sc}
  IN  [traces |-> Append(s.traces, [scene |-> sc, draws |-> d, legend |-> legend, group |-> op.group]),
       box |-> IF known = {} THEN Append(s.box, <<sc, b>>)
               ELSE [i \in 1..Len(s.box) |-> IF i \in known THEN <<sc, Wider(s.box[i][2], b)>> ELSE s.box[i]]]
\* a vector is a line, a tip and a name
PutVector(s, op, a, b, name, legend) ==
  LET d == VectorDrawn(a, b, name)
      s1 == Put(s, op, LineDrawn(a, b), legend)
      s2 == Put(s1, op, [Nothing EXCEPT !.arrows = d.arrows], "")
  IN  IF name = "" THEN s2 ELSE Put(s2, op, [Nothing EXCEPT !.texts = d.texts], "")
RECURSIVE PutVectors(_, _, _, _, _)
PutVectors(s, op, M, name, i) ==
  IF i > 3 THEN s
  ELSE PutVectors(PutVector(s, op, Shift(op), VAdd(Shift(op), VScale(Unit(op), M[i])), name \o Digit3[i], ""), op, M, name, i + 1)
\* four borders per vector: from the corner along it, from its end along both
\* others, and from the end of the diagonal of a face along the third
RECURSIVE PutBorders(_, _, _, _)
PutBorders(s, op, i, legend) ==
  IF i > 3 THEN s
  ELSE LET j == (i % 3) + 1
           k == ((i + 1) % 3) + 1
           v(n) == VScale(Unit(op), op.B[n])
           o == Shift(op)
           P(x, y, z) == VAdd(o, Add3(x, y, z))
           O == <<0, 0, 0>>
           s1 == Put(s, op, LineDrawn(o, P(v(i), O, O)), legend)
           s2 == Put(s1, op, LineDrawn(P(v(i), O, O), P(v(i), v(j), O)), "")
           s3 == Put(s2, op, LineDrawn(P(v(i), O, O), P(v(i), v(k), O)), "")
           s4 == Put(s3, op, LineDrawn(P(v(i), v(j), O), P(v(i), v(j), v(k))), "")
       IN  PutBorders(s4, op, i + 1, "")
\* a subpath with one point draws no segment
RECURSIVE PutPath(_, _, _, _)
PutPath(s, op, n, legend) ==
  IF n > Len(op.path) THEN s
  ELSE LET one == [op EXCEPT !.path = <<op.path[n]>>]
           d == [Nothing EXCEPT !.segs = PathEdges(one)]
       IN  PutPath(IF d.segs = {} THEN s ELSE Put(s, op, d, legend), op, n + 1, IF d.segs = {} THEN legend ELSE "")
RECURSIVE PutEdges(_, _, _, _)
PutEdges(s, op, q, legend) ==
  IF q = <<>> THEN s ELSE PutEdges(Put(s, op, [Nothing EXCEPT !.segs = {Head(q)}], legend), op, Tail(q), "")
Perform(s, op) ==
  CASE op.op = "vector" -> PutVector(s, op, At(op, op.a), At(op, op.b), op.vlabel, op.label)
    [] op.op = "cell" -> PutBorders(IF op.vectors THEN PutVectors(s, op, op.B, VName(op), 1) ELSE s, op, 1, op.label)
    [] op.op \in {"ws", "bz"} -> PutEdges(IF op.vectors THEN PutVectors(s, op, MM(op.T, op.B), VName(op), 1) ELSE s, op, SetToSeq(ZoneEdges(op)), op.label)
    [] op.op = "kpath" -> PutPath(s, op, 1, op.label)
    [] OTHER -> Put(s, op, Drawn(op), op.label)
\* ranges with a margin of 1/40; a flat direction is as long as the longest
\* one.  In units of 1/40.
Shown(b) ==
  LET len == [i \in 1..3 |-> b[i][2] - b[i][1]]
      m == Max({len[1], len[2], len[3], 0})
      long == IF m = 0 THEN 1 ELSE m
      mar == [i \in 1..3 |-> IF len[i] > 0 THEN len[i] ELSE 21 * long]
  IN  [i \in 1..3 |-> <<40 * b[i][1] - mar[i], 40 * b[i][2] + mar[i]>>]
=============================================================================
