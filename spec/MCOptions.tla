----------------------------- MODULE MCOptions -----------------------------
(* Two ways to write a call mean the same exactly when one can be rewritten  *)
(* into the other.                                                           *)
EXTENDS Options
CONSTANTS Some, Limit
VARIABLES c, want
\* spellings used by the model
Spellings(p) == IF p.k = "word" THEN p.v \cup {Lower(v) : v \in p.v} \cup {"zzz"} ELSE IF p.k = "exact" THEN p.v \cup {"zzz"} ELSE p.v
\* only calls with at most Changed parameters that are not the default ones
Changed(x) == Cardinality({i \in DOMAIN Pars(x.f) : Pars(x.f)[i].k # "required" /\ Pars(x.f)[i].d # "" /\ ValueAt(x, i) # Pars(x.f)[i].d})
MInit == \E f \in Some : c = First(f) /\ want = Meaning(First(f))
Restyle ==
  /\ \/ \E i \in DOMAIN Pars(c.f) : CanOmit(c, i) /\ c' = DoOmit(c, i)
     \/ \E i \in DOMAIN Pars(c.f) : CanAdd(c, i) /\ c' = DoAdd(c, i)
     \/ CanPos(c) /\ c' = DoPos(c)
     \/ CanKw(c) /\ c' = DoKw(c)
     \/ \E i \in DOMAIN Pars(c.f) : \E t \in Spellings(Pars(c.f)[i]) :
          Canonical(c.f, Pars(c.f)[i], t) = want[i] /\ Given(c, i) /\ c' = DoSet(c, i, t)
  /\ UNCHANGED want
Change ==
  \E i \in DOMAIN Pars(c.f) : \E t \in Spellings(Pars(c.f)[i]) :
    /\ Given(c, i)
    /\ c' = DoSet(c, i, t)
    /\ want' = [want EXCEPT ![i] = Canonical(c.f, Pars(c.f)[i], t)]
MNext == (Restyle \/ Change) /\ Changed(c') <= Limit
MSpec == MInit /\ [][MNext]_<<c, want>>
AlwaysLegal == Legal(c)
MeansTheSame == Meaning(c) = want
\* every call can be rewritten to all keywords, nothing left out: the normal
\* form is decided by the meaning up to the spelling of the values
RECURSIVE AllKw(_)
AllKw(x) == IF CanKw(x) THEN AllKw(DoKw(x)) ELSE x
RECURSIVE Full(_, _)
Full(x, i) == IF i > NPar(x) THEN x ELSE Full(IF CanAdd(x, i) THEN DoAdd(x, i) ELSE x, i + 1)
Normal(x) == LET y == Full(AllKw(x), 1) IN {<<z[1], (CHOOSE v \in {<<j, Canonical(x.f, Pars(x.f)[j], z[2])>> : j \in {k \in DOMAIN Pars(x.f) : Pars(x.f)[k].n = z[1]}} : TRUE)[2]>> : z \in y.kw}
NormalForm == Normal(c) = {<<Pars(c.f)[i].n, want[i]>> : i \in DOMAIN Pars(c.f)}
=============================================================================
