----------------------------- MODULE MCSnapshot -----------------------------
(* The same machine with an explicit heap: the caller's objects, the data and *)
(* the results are addresses.  If data and results are made of fresh copies   *)
(* the heap behaves as Snapshot says; with Sharing = TRUE (data or results    *)
(* share memory) it does not: the properties below tell them apart.           *)
EXTENDS Snapshot
CONSTANTS Sharing, Depth
VARIABLES heap, next, inp, dat, res, abs, k, last
vars == <<heap, next, inp, dat, res, abs, k, last>>
Vals == 1..2
\* heap: address -> value; inp: address per part; dat: sequence of triples of
\* addresses; res: addresses of results, with the value they must have when made
Init == /\ heap = <<1, 1, 1>> /\ next = 4 /\ inp = <<1, 2, 3>> /\ dat = <<>> /\ res = <<>>
        /\ abs = Empty /\ k = 0 /\ last = "none"
New(vs) == heap \o vs
Read(t) == <<heap[t[1]], heap[t[2]], heap[t[3]]>>
Set(p, v) == /\ heap' = [heap EXCEPT ![inp[p]] = v] /\ UNCHANGED <<next, inp, dat, res>>
             /\ abs' = Step(abs, [op |-> "set", part |-> p, v |-> v]) /\ last' = "none"
Form == /\ heap' = New(Read(inp)) /\ next' = next + 3 /\ inp' = <<next, next + 1, next + 2>> /\ UNCHANGED <<dat, res>>
        /\ abs' = Step(abs, [op |-> "form"]) /\ last' = "none"
Data == /\ Len(dat) < 2
        /\ IF Sharing THEN heap' = heap /\ next' = next /\ dat' = Append(dat, inp)
           ELSE heap' = New(Read(inp)) /\ next' = next + 3 /\ dat' = Append(dat, <<next, next + 1, next + 2>>)
        /\ UNCHANGED <<inp, res>> /\ abs' = Step(abs, [op |-> "data"]) /\ last' = "none"
Call(d) ==
  LET g == IF d = 0 \/ Len(dat) = 0 THEN 0 ELSE d
      ok == g = 0 \/ (g <= Len(dat) /\ Read(dat[g]) = Read(inp))
      op == [op |-> "call", d |-> d]
  IN  /\ d <= Len(dat)
      /\ IF ~ok THEN UNCHANGED <<heap, next, res>>
         ELSE IF Sharing /\ g # 0 THEN UNCHANGED <<heap, next>> /\ res' = Append(res, dat[g][1])
         ELSE heap' = Append(heap, heap[inp[1]]) /\ next' = next + 1 /\ res' = Append(res, next)
      /\ UNCHANGED <<inp, dat>> /\ abs' = Step(abs, op)
      /\ last' = IF ok = (Outcome(abs, op) = "result") THEN "agrees" ELSE "differs"
Spoil == /\ heap' = [a \in 1..Len(heap) |-> IF \E i \in 1..Len(res) : res[i] = a THEN 3 ELSE heap[a]]
         /\ res' = <<>> /\ UNCHANGED <<next, inp, dat>> /\ abs' = Step(abs, [op |-> "spoil"]) /\ last' = "none"
Next == /\ k < Depth /\ k' = k + 1
        /\ \/ \E p \in 1..3 : \E v \in Vals : Set(p, v)
           \/ Form \/ Data \/ Spoil
           \/ \E d \in 0..2 : Call(d)
Spec == Init /\ [][Next]_vars
DataKept == \A i \in 1..Len(dat) : Read(dat[i]) = abs.data[i]
InputsKept == Read(inp) = abs.in
CallsAgree == last # "differs"
=============================================================================
