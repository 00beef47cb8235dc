-------------------------- MODULE TraceKpointsSM ---------------------------
(* C10: a history of operations on two Kpoints objects; after each of them   *)
(* both objects were observed.  The machine is run along the history.        *)
EXTENDS TraceLib, KpointsSM
ObjClauses(s, o, t) ==
  Fails("Names:" \o t, o.names = s.names)
  \cup Fails("Coordinates:" \o t, o.ckeys = s.names /\ o.co = s.co)
  \cup Fails("Labels:" \o t, o.lkeys = s.names /\ o.la = s.la)
  \cup Fails("Path:" \o t, o.path = s.path)
  \cup Fails("PathString:" \o t, o.ps = Show(s.path))
  \cup Fails("N:" \o t, o.n = s.n)
  \cup Fails("Cell:" \o t, o.cell = s.cell)
RECURSIVE Walk(_, _, _)
Walk(h, k, objs) ==
  IF k > Len(h) THEN {}
  ELSE
    LET e == h[k]
        s == Step(objs, e.op)
        t == e.op.op
        other == IF e.op.op = "copy" THEN e.op.i ELSE 3 - e.op.i
        bad == IF RemovesUsed(objs, e.op)
               THEN \* what the path becomes is not specified, but it must be defined
                 LET o == e.obs[e.op.i]
                     x == s.objs[e.op.i]
                 IN  Fails("PathDefinedAfterRemove", PathNamesOf(o.path) \subseteq RangeOf(o.names))
                     \cup Fails("Names:remove", e.exc = "" => o.names = x.names)
                     \cup ObjClauses(s.objs[other], e.obs[other], "otherObject")
               ELSE Fails("Outcome:" \o t, e.exc = s.exc)
                    \cup ObjClauses(s.objs[3 - other], e.obs[3 - other], t)
                    \cup ObjClauses(s.objs[other], e.obs[other], "otherObject")
    IN  IF bad # {} \/ RemovesUsed(objs, e.op) THEN bad ELSE Walk(h, k + 1, s.objs)
Clauses(r) == Walk(r.hist, 1, <<Nothing, Nothing>>)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN Clauses(Trace[l * W + w]) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
