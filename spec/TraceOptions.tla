---------------------------- MODULE TraceOptions ---------------------------
(* C28: a call does what it means.  r.calls[i]: pos, kw (pairs), exc (name of *)
(* the exception) and cls (calls with equal answers have equal numbers).      *)
EXTENDS TraceLib, Options
CallOf(r, i) == [f |-> r.f, pos |-> r.calls[i].pos, kw |-> {r.calls[i].kw[j] : j \in 1..Len(r.calls[i].kw)}]
Clauses(r) ==
  LET N == 1..Len(r.calls)
      C == TLCEval([i \in N |-> CallOf(r, i)])
      M == TLCEval([i \in N |-> Meaning(C[i])])
      Bad == {i \in N : \E j \in DOMAIN M[i] : M[i][j] = Unknown}
      Good == N \ Bad
      Par == Pars(r.f)
      Differ(i, j) == {k \in DOMAIN Par : M[i][k] # M[j][k]}
      Cause(i) == LET K == {k \in DOMAIN Par : M[i][k] = Unknown} IN Par[CHOOSE k \in K : TRUE].n
  IN  IF \E i \in N : ~Legal(C[i]) THEN {"IllegalCall"} ELSE
      UNION {Fails("Refused:" \o r.f \o ":" \o Cause(i), r.calls[i].exc = ExcOf(r.f)) : i \in Bad}
      \cup UNION {Fails("Accepted:" \o r.f \o ":" \o r.calls[i].exc, r.f \in MayRaise \/ r.calls[i].exc = "") : i \in Good}
      \cup UNION {IF Differ(x[1], x[2]) # {} THEN {} ELSE Fails("MeansTheSame:" \o r.f, r.calls[x[1]].cls = r.calls[x[2]].cls)
                  : x \in {y \in Good \X Good : y[1] < y[2]}}
      \cup UNION {LET D == Differ(x[1], x[2])
                      k == CHOOSE n \in D : TRUE
                  IN  IF Cardinality(D) # 1 THEN {} ELSE Fails("NotIgnored:" \o r.f \o ":" \o Par[k].n, ~Par[k].s \/ r.calls[x[1]].cls # r.calls[x[2]].cls)
                  : x \in {y \in Good \X Good : y[1] < y[2]}}
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
