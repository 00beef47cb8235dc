----------------------------- MODULE GenOptions ----------------------------
EXTENDS Options, Json
CONSTANT Depth
VARIABLES c, hist
Draw(Z) == TLCEval(RandomElement(Z))
RECURSIVE Mix(_)
Mix(t) == IF t = "" THEN "" ELSE LET a == SubSeq(t, 1, 1) b == Lower(a) u == {x \in {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"} : Lower(x) = b}
          IN  Draw({a, b} \cup u) \o Mix(SubSeq(t, 2, Len(t)))
Bad(t) == Draw({"", t \o " ", " " \o t, t \o "2", SubSeq(t, 1, Len(t) - 1), "unknown", t \o t, "HPKOT-SC", "none"})
Text(p) ==
  LET t == Draw(p.v) k == Draw(1..12) IN
  CASE p.k = "word" -> IF k = 1 THEN Bad(t) ELSE IF k < 9 THEN Mix(t) ELSE t
    [] p.k = "exact" -> IF k = 1 THEN Bad(t) ELSE IF k = 2 THEN Mix(t) ELSE t
    [] OTHER -> t
Options(x) == {i \in DOMAIN Pars(x.f) : Pars(x.f)[i].k # "required"}
\* everything up to a parameter by position
RECURSIVE UpTo(_, _)
UpTo(x, i) == IF NPos(x) >= i THEN x
              ELSE UpTo(LET y == IF CanAdd(x, NPos(x) + 1) THEN DoAdd(x, NPos(x) + 1) ELSE x IN IF CanPos(y) THEN DoPos(y) ELSE y, IF CanAdd(x, NPos(x) + 1) \/ CanPos(x) THEN i ELSE 0)
Step(x) ==
  LET d == Draw(1..10)
      i == Draw(DOMAIN Pars(x.f))
      o == IF Options(x) = {} THEN i ELSE Draw(Options(x))
  IN  CASE d = 1 -> UpTo(x, i)
        [] d = 2 /\ CanPos(x) -> DoPos(x)
        [] d = 3 /\ CanKw(x) -> DoKw(x)
        [] d \in 4..5 /\ CanAdd(x, o) -> DoAdd(x, o)
        [] d \in 4..6 /\ CanOmit(x, o) -> DoOmit(x, o)
        [] d \in 7..8 /\ Given(x, o) /\ Pars(x.f)[o].k \notin {"required"} ->
             \* the same meaning in other words
             LET T == {t \in Pars(x.f)[o].v : Canonical(x.f, Pars(x.f)[o], t) = Canonical(x.f, Pars(x.f)[o], ValueAt(x, o))}
             IN  IF T = {} THEN x ELSE LET t == Draw(T) IN DoSet(x, o, IF Pars(x.f)[o].k = "word" THEN Mix(t) ELSE t)
        [] OTHER -> IF Given(x, o) THEN DoSet(x, o, Text(Pars(x.f)[o]))
                    ELSE [x EXCEPT !.kw = @ \cup {<<Pars(x.f)[o].n, Text(Pars(x.f)[o])>>}]
RECURSIVE Steps(_, _)
Steps(x, n) == IF n = 0 THEN x ELSE Steps(TLCEval(Step(x)), n - 1)
\* back to the defaults now and then: mistakes in a default show there
Back(x) == IF Draw(1..4) = 1 THEN First(x.f) ELSE x
GInit == \E f \in Functions : c = First(f) /\ hist = <<First(f)>>
GNext == /\ Len(hist) < Depth
         /\ \E x \in {TLCEval(Steps(TLCEval(Back(c)), Draw(1..3)))} : c' = x /\ hist' = Append(hist, x)
GSpec == GInit /\ [][GNext]_<<c, hist>>
LegalAll == Legal(c)
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([f |-> c.f, pars |-> [i \in DOMAIN Pars(c.f) |-> Pars(c.f)[i].n], calls |-> [i \in 1..Len(hist) |-> [pos |-> hist[i].pos, kw |-> hist[i].kw]]]))
=============================================================================
