------------------------------- MODULE MCFrame ------------------------------
(* The frame with an explicit heap of addresses.  Correct: a result is a new  *)
(* address holding copies.  Fault (a constant) plants one of the mistakes an  *)
(* implementation can make; the properties hold iff there is none.            *)
EXTENDS Frame
CONSTANTS Fault, Depth
VARIABLES heap, abs, res, k, obs, memo
vars == <<heap, abs, res, k, obs, memo>>
\* address 1: tables, 2 and 3: inputs; the others are results
Funs == {"f", "g"}
Init == heap = <<0, 0, 0>> /\ abs = Start /\ res = {} /\ k = 0 /\ obs = "none" /\ memo = [f \in Funs |-> [i \in 1..2 |-> <<>>]]
Num(f) == IF f = "f" THEN 1 ELSE 2
Make(f, i) == <<f, heap[1], heap[1 + i]>>
DoCall(f, i) ==
  LET v == IF Fault = "remembers" /\ memo[f][i] # <<>> THEN memo[f][i] ELSE Make(f, i)
      a == Len(heap) + 1
  IN  /\ CASE Fault = "writesInput" /\ f = "g" -> heap' = Append([heap EXCEPT ![1 + i] = 1], 0) /\ res' = res \cup {a}
           [] Fault = "writesTables" /\ f = "g" -> heap' = Append([heap EXCEPT ![1] = 1], 0) /\ res' = res \cup {a}
           [] Fault = "returnsTables" /\ f = "g" -> heap' = heap /\ res' = res \cup {1}
           [] Fault = "returnsInput" /\ f = "g" -> heap' = heap /\ res' = res \cup {1 + i}
           [] OTHER -> heap' = Append(heap, 0) /\ res' = res \cup {a}
      /\ obs' = IF v = Expected(abs, f, i) THEN "same" ELSE "other"
      /\ abs' = Call(abs, f, i)
      /\ memo' = [memo EXCEPT ![f][i] = IF Fault = "remembers" THEN v ELSE <<>>]
DoChange(i) == /\ heap' = [heap EXCEPT ![1 + i] = 1 - abs.inputs[i]] /\ abs' = Change(abs, i) /\ obs' = "none" /\ UNCHANGED <<res, memo>>
DoSpoil == /\ res # {} /\ heap' = [a \in 1..Len(heap) |-> IF a \in res THEN 7 ELSE heap[a]] /\ res' = {} /\ obs' = "none" /\ abs' = Spoil(abs) /\ memo' = memo
Next == k < Depth /\ k' = k + 1 /\ (DoSpoil \/ (\E i \in 1..2 : DoChange(i)) \/ \E f \in Funs : \E i \in 1..2 : DoCall(f, i))
Spec == Init /\ [][Next]_vars
TablesKept == heap[1] = abs.tables
InputsKept == <<heap[2], heap[3]>> = abs.inputs
SameResults == obs # "other"
=============================================================================
