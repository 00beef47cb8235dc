------------------------------ MODULE MCSugar -------------------------------
EXTENDS Sugar
CONSTANTS Depth, MaxObjs
VARIABLES s, k, last
vars == <<s, k, last>>
Ks == {"a", "b", "c"}
Ops ==
  [op : {"get", "del", "has", "default"}, i : 1..2, k : Ks, way : {"attr", "item"}]
  \cup [op : {"set"}, i : 1..2, k : Ks, v : 1..2, way : {"attr", "item"}]
  \cup [op : {"add", "remove", "copy"}, i : 1..2, way : {"item"}]
Init == s = Start /\ k = 0 /\ last = [op |-> [op |-> "has", i |-> 1, k |-> "a", way |-> "item"], r |-> R(Start, "", 0)]
Next == /\ k < Depth /\ k' = k + 1
        /\ \E op \in Ops : /\ (op.op \in {"add", "remove", "copy"} => Len(s) < MaxObjs)
                           /\ last' = [op |-> op, r |-> Step(s, op)] /\ s' = Step(s, op).s
Spec == Init /\ [][Next]_vars
Inv == Consistent(s)
\* both ways give the same state and value; they differ in the exception only
Twins == \A op \in Ops :
  LET a == Step(s, [op EXCEPT !.way = "attr"])
      b == Step(s, [op EXCEPT !.way = "item"])
  IN  a.s = b.s /\ a.val = b.val /\ ((a.exc = "") = (b.exc = ""))
\* what is put is got, what is deleted is gone, others stay in order
PutGet == \A op \in Ops : op.op = "set" =>
  LET t == Step(s, op).s
      i == Ob(s, op.i)
  IN  Get(t[i], op.k) = op.v /\ \A x \in Ks \ {op.k} : SelectSeq(t[i].at, LAMBDA e : e[1] = x) = SelectSeq(s[i].at, LAMBDA e : e[1] = x)
\* an operation touches one object; making an object leaves the others
Independent == [][\A i \in 1..Len(s) : s'[i] = s[i] \/ i = Ob(s, last'.op.i)]_vars
Rejected == [][last'.r.exc # "" => s' = s]_vars
MadeEqual == [][Len(s') > Len(s) => s'[Len(s')].at = s[Ob(s, last'.op.i)].at]_vars
=============================================================================
