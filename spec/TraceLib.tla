------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Total verdicts over a recorded trace of the implementation.             *)
(*                                                                         *)
(* A trace file holds one JSON record per line, one per observed execution *)
(* (or history) of the implementation.  A validating module defines        *)
(* Clauses(r), the set of names of the clauses of the property violated by *)
(* record r, and                                                           *)
(*    TraceInit == TInit                                                   *)
(*    TraceNext == TStep(IF l*W + w <= Len(Trace)                          *)
(*                       THEN Clauses(Trace[l*W + w]) ELSE {})             *)
(* State <<w, l>>: chain w has judged l records.  Records are independent, *)
(* so the W chains may be explored by different TLC workers.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16

VARIABLES w, l

TInit == w \in 1..W /\ l = 0

TStep(bad) ==
  /\ l * W + w <= Len(Trace)
  /\ IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([at |-> l * W + w, clauses |-> bad]))
  /\ l' = l + 1
  /\ w' = w

\* every record was judged (the postcondition's number is compared with the
\* number of lines by the harness)
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - W>>)

\* a named clause: its name is in the verdict iff it does not hold
Fails(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
