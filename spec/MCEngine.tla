------------------------------ MODULE MCEngine -----------------------------
EXTENDS Engine
CONSTANTS Depth, Groups, Moved
VARIABLES s, hist, last
vars == <<s, hist, last>>
Cells == {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>, <<<<2, 0, 0>>, <<-1, 2, 0>>, <<0, 1, -1>>>>}
Places == {<<0, 0, 0>>, <<-6, 2, 4>>}
Cs == {1, 2}
X == [label : {"", "L"}, group : Groups, r : {1}, c : Cs, colors : {<<>>}, shift : IF Moved THEN Places ELSE {<<-6, 2, 4>>}]
\* labels, groups and places are drawn from X, geometry from the sets below
Ops ==
  {x @@ [op |-> "line", a |-> <<0, 0, 0>>, b |-> <<4, -8, 0>>] : x \in X}
  \cup {x @@ [op |-> "vector", a |-> <<4, 4, 4>>, b |-> <<0, 0, 8>>, vlabel |-> v] : x \in X, v \in {"", "v"}}
  \cup {x @@ [op |-> "points", pts |-> <<<<8, 0, 0>>, <<8, 0, -4>>>>, many |-> FALSE] : x \in X}
  \cup {x @@ [op |-> "cell", B |-> B, vectors |-> v, vlabel |-> ""] : x \in X, B \in Cells, v \in BOOLEAN}
  \cup {x @@ [op |-> z, B |-> B, T |-> Id3, vectors |-> TRUE, vlabel |-> "w"] : x \in X, B \in {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<-1, 1, 1>>, <<1, -1, 1>>, <<1, 1, -1>>>>}, z \in {"ws"}}
  \cup {x @@ [op |-> "kpath", B |-> B, pts |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<2, 2, 0>>>>, path |-> p] : x \in X, B \in Cells, p \in {<<<<1, 2, 3>>>>, <<<<1, 2>>, <<3>>, <<3, 1>>>>, <<>>}}
  \cup {x @@ [op |-> "kpoints", B |-> B, pts |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<2, 2, 0>>>>, names |-> <<"G", "X", "M">>, only |-> o, path |-> <<<<1, 2>>, <<3, 1>>>>] : x \in X, B \in Cells, o \in BOOLEAN}
  \cup {x @@ [op |-> "lattice", B |-> B, range |-> <<1, 0, 1>>] : x \in X, B \in Cells}
  \cup {x @@ [op |-> "atoms", B |-> B, pts |-> <<<<1, 2, 3>>, <<0, 0, 0>>>>, names |-> <<>>, table |-> <<"red", "blue">>] : x \in X, B \in Cells}
NotYet == [op |-> "none"]
Init == s = Empty /\ hist = <<>> /\ last = NotYet
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : /\ s' = Perform(s, op) /\ hist' = Append(hist, op) /\ last' = op
Spec == Init /\ [][Next]_vars
Scenes == {<<1, c>> : c \in Cs}
RECURSIVE Union(_)
Union(q) == IF q = <<>> THEN Nothing ELSE Both(Head(q), Union(Tail(q)))
OfScene(sc) == SelectSeq(s.traces, LAMBDA t : t.scene = sc)
Asked(sc) == SelectSeq(hist, LAMBDA op : <<op.r, op.c>> = sc)
InScene(sc) ==
  LET t == OfScene(sc)
      g == Union([i \in 1..Len(t) |-> t[i].draws])
      q == Asked(sc)
      a == Union([i \in 1..Len(q) |-> Drawn(q[i])])
      box == {i \in 1..Len(s.box) : s.box[i][1] = sc}
      E == Extent(a)
  IN  \* exactly what was asked is in the subplot
      /\ g.segs = a.segs /\ g.arrows = a.arrows /\ g.texts = a.texts
      /\ \A m \in ToSet(a.marks) \cup ToSet(g.marks) :
            Cardinality({i \in 1..Len(a.marks) : a.marks[i] = m}) = Cardinality({i \in 1..Len(g.marks) : g.marks[i] = m})
      \* its range is the box of it
      /\ (E = {}) = (box = {})
      /\ \A i \in box : s.box[i][2] = BoxOf(E)
      \* and what is shown contains it and is not flat
      /\ \A i \in box : LET z == Shown(s.box[i][2])
                        IN  \A k \in 1..3 : z[k][1] < z[k][2] /\ \A p \in E : z[k][1] <= 40 * p[k] /\ 40 * p[k] <= z[k][2]
Contents == \A sc \in Scenes : InScene(sc)
LabelOf(op) == IF op.op = "kpath" /\ PathEdges(op) = {} THEN "" ELSE op.label
OneEntry == Cardinality({i \in 1..Len(s.traces) : s.traces[i].legend # ""}) = Cardinality({i \in 1..Len(hist) : LabelOf(hist[i]) # ""})
Twelve == last.op = "cell" => Cardinality(CellEdges(last, last.B)) = 12
Obtuses == last.op = "ws" => Obtuse(last.B)
\* a call adds traces of its own subplot and group
Grows == [][/\ SubSeq(s'.traces, 1, Len(s.traces)) = s.traces
            /\ \A i \in (Len(s.traces) + 1)..Len(s'.traces) : s'.traces[i].scene = <<last'.r, last'.c>> /\ s'.traces[i].group = last'.group
            /\ \A i \in 1..Len(s.box) : s.box[i][1] # <<last'.r, last'.c>> => s'.box[i] = s.box[i]]_vars
=============================================================================
