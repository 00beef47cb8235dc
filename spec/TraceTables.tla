---------------------------- MODULE TraceTables ----------------------------
(* C26: every entry of every table of constants is a record.                  *)
EXTENDS TraceLib, Tables
Group(r) ==
  Fails("Known", r.known)
  \cup (IF ~r.known THEN {} ELSE
        Fails("Family", r.family = Family(r.n)) \cup Fails("Centring", r.centring = Centring(r.n)) \cup Fails("Inversion", r.inversion = Inversion(r.n))
        \cup Fails("IsALattice", (r.family \o r.centring) \in LatticeTypes /\ r.listed))
Lattice(r) ==
  Fails("ShortName", r.short = SCShort(r.lt))
  \cup Fails("LongName", ToSet(r.words) = SCWords(r.lt))
  \cup Fails("HPKOTMatrix", r.hpkot = HPKOTMatrix6(r.lt))
  \cup Fails("SCMatrix", r.sc = SCMatrix6(r.lt))
  \cup Fails("ListedOnce", r.count = 1)
Variation(r) ==
  Fails("Path", r.path = PathOf(r.v))
  \cup Fails("ListedOnce", r.count = 1)
  \cup Fails("PointsHaveLabels", \A n \in PathNames(Extended(PathOf(r.v))) \cup Names(Tab(TableOf(r.v))) : n \in ToSet(r.labelled))
Name(r) ==
  Fails("Label", Plain(r.label) = Label(r.name))
  \cup Fails("Typeset", Dollars(r.label) = IF HasMath(r.name) THEN 2 ELSE 0)
Species(r) ==
  Fails("Symbol", r.symbol = Elements[r.z])
  \cup Fails("HasMass", r.hasmass) \cup Fails("HasColor", r.hascolor)
  \cup Fails("Mass", ~r.hasmass \/ MassOK(r.z, r.mass))
  \cup Fails("Color", ~r.hascolor \/ ColorOK(r.color))
Whole(r) ==
  Fails("Groups", ToSet(r.groups) = SGs /\ Len(r.groups) = 3 * 230)
  \cup Fails("LatticeTypes", ToSet(r.lattices) = LatticeTypes)
  \cup Fails("LatticeKeys", \A i \in 1..Len(r.lkeys) : ToSet(r.lkeys[i]) = LatticeTypes)
  \cup Fails("HPKOTKeys", ToSet(r.hkeys) = Variations("hpkot"))
  \cup Fails("SCKeys", ToSet(r.skeys) = Variations("sc"))
  \cup Fails("NamesComplete", UsedNames \subseteq ToSet(r.names))
  \cup Fails("LabelsDiffer", Cardinality(ToSet(r.labels)) = Len(r.names) /\ Len(r.labels) = Len(r.names))
  \cup Fails("Species", r.nspecies = 118)
  \cup Fails("ColorOfUnknown", r.xcolor # "" /\ ColorOK(r.xcolor))
  \* in units of 10^-6: pi/180 and 180/pi
  \cup Fails("Angles", r.rad = 17453 /\ r.deg = 57295780)
Clauses(r) ==
  CASE r.kind = "group" -> Group(r) [] r.kind = "lattice" -> Lattice(r) [] r.kind = "variation" -> Variation(r)
    [] r.kind = "name" -> Name(r) [] r.kind = "species" -> Species(r) [] r.kind = "whole" -> Whole(r)
TraceInit == TInit
TraceNext == TStep(IF l * W + w <= Len(Trace) THEN {r2 \o ":" \o Trace[l * W + w].kind : r2 \in Clauses(Trace[l * W + w])} ELSE {})
TraceSpec == TraceInit /\ [][TraceNext]_<<w, l>>
=============================================================================
